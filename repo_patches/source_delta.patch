From 858a75f40fa19c641b7b68d210bad90313db895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:14 +0000
Subject: [PATCH 01/15] fix: export unnamed controls to CSV

Exporting a control without a name to CSV raised a KeyError, because the
optional "name" entry was removed unconditionally.
---
 qctrlopencontrols/driven_controls/driven_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index 7c7ee02..9eabe50 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -390,7 +390,7 @@ class DrivenControl:
 
         control_info = self._qctrl_expanded_export_content(coordinates=coordinates)
         if file_type == FileType.CSV.value:
-            _ = control_info.pop("name")
+            control_info.pop("name", None)
             control_info["maximum_rabi_rate"] = [
                 self.maximum_rabi_rate
             ] * self.number_of_segments
-- 
2.43.0


From a697abd594f6fac4ec7268ab218d47b67c638140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:14 +0000
Subject: [PATCH 02/15] fix: export controls whose Rabi rate is zero everywhere

Normalizing to a maximum Rabi rate of zero divided zero by zero, so the
exported files and the plot data contained NaN instead of zeros.
---
 .../driven_controls/driven_control.py             | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index 9eabe50..69bee50 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -346,6 +346,9 @@ class DrivenControl:
             A dictionary containing the information of the control.
         """
 
+        # a control without any drive has nothing to normalize
+        normalizer = self.maximum_rabi_rate if self.maximum_rabi_rate != 0 else 1.0
+
         control_info = {
             "maximum_rabi_rate": self.maximum_rabi_rate,
             "detuning": list(self.detunings),
@@ -356,14 +359,10 @@ class DrivenControl:
             control_info["name"] = self.name
 
         if coordinates == Coordinate.CARTESIAN.value:
-            control_info["amplitude_x"] = list(
-                self.amplitude_x / self.maximum_rabi_rate
-            )
-            control_info["amplitude_y"] = list(
-                self.amplitude_y / self.maximum_rabi_rate
-            )
+            control_info["amplitude_x"] = list(self.amplitude_x / normalizer)
+            control_info["amplitude_y"] = list(self.amplitude_y / normalizer)
         else:
-            control_info["rabi_rates"] = list(self.rabi_rates / self.maximum_rabi_rate)
+            control_info["rabi_rates"] = list(self.rabi_rates / normalizer)
             control_info["azimuthal_angles"] = list(self.azimuthal_angles)
 
         return control_info
@@ -537,7 +536,7 @@ class DrivenControl:
             {"coordinates": coordinates},
         )
 
-        if dimensionless_rabi_rate:
+        if dimensionless_rabi_rate and self.maximum_rabi_rate != 0:
             normalizer = self.maximum_rabi_rate
         else:
             normalizer = 1
-- 
2.43.0


From 002b961b7845d5b7b251fde783e4d1706802d6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:14 +0000
Subject: [PATCH 03/15] fix: print negative detunings when the largest detuning
 is zero

The string form of a control with detunings such as [0, -3] showed all
detunings as zero.
---
 qctrlopencontrols/driven_controls/driven_control.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qctrlopencontrols/driven_controls/driven_control.py b/qctrlopencontrols/driven_controls/driven_control.py
index 69bee50..a7d506f 100644
--- a/qctrlopencontrols/driven_controls/driven_control.py
+++ b/qctrlopencontrols/driven_controls/driven_control.py
@@ -592,11 +592,14 @@ class DrivenControl:
             [str(azimuthal_angle / np.pi) for azimuthal_angle in self.azimuthal_angles]
         )
 
+        # if no detuning is positive the largest one can be zero while others are not
+        detuning_scale = self.maximum_detuning
+        if detuning_scale == 0:
+            detuning_scale = np.amin(self.detunings)
+
         pretty_detuning = ",".join(
             [
-                str(detuning / self.maximum_detuning)
-                if self.maximum_detuning != 0
-                else "0"
+                str(detuning / detuning_scale) if detuning_scale != 0 else "0"
                 for detuning in self.detunings
             ]
         )
@@ -612,7 +615,7 @@ class DrivenControl:
             "Azimuthal Angles = [{}] x pi".format(pretty_azimuthal_angles)
         )
         driven_control.append(
-            "Detunings = [{}] x {}".format(pretty_detuning, self.maximum_detuning)
+            "Detunings = [{}] x {}".format(pretty_detuning, detuning_scale)
         )
         driven_control.append(
             "Durations = [{}] x {}".format(pretty_durations, self.duration)
-- 
2.43.0


From 23aac8605a762b86335d362f994dc07768aafbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:14 +0000
Subject: [PATCH 04/15] fix: reject pulses combining a Rabi and a negative
 detuning rotation

Only positive detuning rotations were detected, so a pulse with a Rabi
rotation and a negative detuning rotation was converted with its detuning
rotation silently dropped.
---
 .../dynamic_decoupling_sequences/dynamic_decoupling_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index 8dff4c4..7dd237f 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -529,6 +529,6 @@ def _check_valid_operation(
     """
 
     rabi_rotation_index = set(np.where(rabi_rotations > 0.0)[0])
-    detuning_rotation_index = set(np.where(detuning_rotations > 0.0)[0])
+    detuning_rotation_index = set(np.where(detuning_rotations != 0.0)[0])
 
     return not rabi_rotation_index.intersection(detuning_rotation_index)
-- 
2.43.0


From 64923e8c3121109b0088cb0cabcb0f8eca98ea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:14 +0000
Subject: [PATCH 05/15] fix: detect overlapping pulses in short sequences

The gaps between pulses were compared with an absolute tolerance of 1e-8
seconds, which accepted overlapping pulses and gaps shorter than the minimum
segment duration in nanosecond-scale sequences. The tolerance now scales with
the duration of the sequence.
---
 .../dynamic_decoupling_sequence.py                            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index 7dd237f..0f72ac2 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -444,7 +444,9 @@ def convert_dds_to_driven_control(
     if not np.all(
         np.logical_or(
             np.greater(gap_durations, minimum_segment_duration),
-            np.isclose(gap_durations, minimum_segment_duration),
+            np.isclose(
+                gap_durations, minimum_segment_duration, atol=1e-8 * sequence_duration
+            ),
         )
     ):
         raise ArgumentsValueError(
-- 
2.43.0


From f9e2cd681b0eb807aa4cdd413943083957ea060c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:14 +0000
Subject: [PATCH 06/15] fix: keep the pulses of sequences shorter than 10 ns

Sequences with a duration below 1e-8 seconds were always converted to a free
evolution. Free evolutions of any duration are already handled by the general
conversion.
---
 .../dynamic_decoupling_sequence.py                     | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index 0f72ac2..72bda62 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -466,16 +466,6 @@ def convert_dds_to_driven_control(
             },
         )
 
-    if np.allclose(pulse_start_ends, 0.0):
-        # the original sequence should be a free evolution
-        return DrivenControl(
-            rabi_rates=[0.0],
-            azimuthal_angles=[0.0],
-            detunings=[0.0],
-            durations=[sequence_duration],
-            name=name,
-        )
-
     control_rabi_rates = np.zeros((operations.shape[1] * 2,))
     control_azimuthal_angles = np.zeros((operations.shape[1] * 2,))
     control_detunings = np.zeros((operations.shape[1] * 2,))
-- 
2.43.0


From 07cc495d77681354361c2a160d19be4844a6d764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:14 +0000
Subject: [PATCH 07/15] fix: follow the XY concatenation recursion beyond
 second order

From third order on, the helper assumed that every inner sequence ends with a
Y pulse. Inner sequences of even order end with a free evolution instead, so
free evolution periods were dropped and pulses were missing, misplaced or
duplicated.
---
 .../predefined.py                             | 34 ++++++-------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
index 8167239..d12bd60 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
@@ -1232,26 +1232,14 @@ def _concatenation_xy(concatenation_sequence) -> np.ndarray:
 
     if concatenation_sequence == 1:
         return np.array([1, -1, 1, -2, 1, -1, 1, -2])
-    cumulations = np.concatenate(
-        (_concatenation_xy(concatenation_sequence - 1), np.array([-1])), axis=0
-    )
-    cumulations = cumulations[0:-1]
-    cumulations[-1] = -3
-    cumulations = np.concatenate(
-        (cumulations, _concatenation_xy(concatenation_sequence - 1), np.array([-2])),
-        axis=0,
-    )
-    cumulations = cumulations[0:-2]
-    cumulations = np.concatenate(
-        (cumulations, _concatenation_xy(concatenation_sequence - 1), np.array([-1])),
-        axis=0,
-    )
-    cumulations = cumulations[0:-1]
-    cumulations[-1] = -3
-    cumulations = np.concatenate(
-        (cumulations, _concatenation_xy(concatenation_sequence - 1), np.array([-2])),
-        axis=0,
-    )
-    if cumulations[-1] == -2 and cumulations[-2] == -2:
-        cumulations = cumulations[0:-2]
-    return cumulations
+
+    base = _concatenation_xy(concatenation_sequence - 1)
+    if base[-1] == -2:
+        # the trailing Y merges with the following X into a Z, and cancels the following Y
+        base_x = np.append(base[:-1], -3)
+        base_y = base[:-1]
+    else:
+        base_x = np.append(base, -1)
+        base_y = np.append(base, -2)
+
+    return np.concatenate((base_x, base_y, base_x, base_y), axis=0)
-- 
2.43.0


From 64b448eac11093b0269c3e6ba97d3025051aa18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:14 +0000
Subject: [PATCH 08/15] fix: respect the minimum segment duration of modulated
 Gaussian controls

The number of segments was rounded up, so every segment was shorter than the
requested minimum unless the duration was a multiple of it.
---
 qctrlopencontrols/driven_controls/predefined.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/qctrlopencontrols/driven_controls/predefined.py b/qctrlopencontrols/driven_controls/predefined.py
index 525344b..13b9404 100644
--- a/qctrlopencontrols/driven_controls/predefined.py
+++ b/qctrlopencontrols/driven_controls/predefined.py
@@ -1040,8 +1040,9 @@ def new_modulated_gaussian_control(
         },
     )
 
-    # work out exact segment duration
-    segment_count = int(np.ceil(duration / minimum_segment_duration))
+    # work out exact segment duration; the ratio is rounded so that floating point errors do not
+    # remove a segment
+    segment_count = int(np.floor(np.round(duration / minimum_segment_duration, 9)))
     segment_duration = duration / segment_count
     segment_start_times = np.arange(segment_count) * segment_duration
     segment_midpoints = segment_start_times + segment_duration / 2
@@ -1065,10 +1066,11 @@ def new_modulated_gaussian_control(
 
         # maximum segment value
         pulse_segments_maximum = np.max(modulated_gaussian_segments)
-        # normalize to maximum Rabi rate
-        modulated_gaussian_segments = (
-            maximum_rabi_rate * modulated_gaussian_segments / pulse_segments_maximum
-        )
+        # normalize to maximum Rabi rate (a single segment is zero by antisymmetry)
+        if segment_count > 1:
+            modulated_gaussian_segments = (
+                maximum_rabi_rate * modulated_gaussian_segments / pulse_segments_maximum
+            )
     else:
         # for the zero-frequency pulse, we need to produce the largest possible full rotation (i.e.
         # multiple of 2pi) while respecting the maximum Rabi rate. Note that if the maximum Rabi
-- 
2.43.0


From 2a3394b95ffea0a7df116adee089334f5dc47cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:48 +0000
Subject: [PATCH 09/15] fix: keep the pulses of XY-concatenated sequences
 within the duration

Summing up the free evolution periods accumulated rounding errors, so the
final pulse of an odd-order sequence could land past the end of the sequence,
which was then rejected. The periods are now counted before they are scaled.
---
 .../dynamic_decoupling_sequences/predefined.py           | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
index d12bd60..1220c82 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/predefined.py
@@ -1020,8 +1020,7 @@ def new_xy_concatenated_sequence(
     rabi_operations = rabi_operations[rabi_operations != -3]
     rabi_positions = np.zeros(rabi_operations.shape)
     rabi_positions[rabi_operations != -1] = 1
-    rabi_positions = rabi_positions * unit_spacing
-    rabi_positions = np.cumsum(rabi_positions)
+    rabi_positions = np.cumsum(rabi_positions) * unit_spacing
 
     values, counts = np.unique(rabi_positions, return_counts=True)
     rabi_offsets = [value for value, count in zip(values, counts) if count % 2 == 0]
@@ -1030,8 +1029,7 @@ def new_xy_concatenated_sequence(
     azimuthal_operations = azimuthal_operations[azimuthal_operations != -3]
     azimuthal_positions = np.zeros(azimuthal_operations.shape)
     azimuthal_positions[azimuthal_operations != -2] = 1
-    azimuthal_positions = azimuthal_positions * unit_spacing
-    azimuthal_positions = np.cumsum(azimuthal_positions)
+    azimuthal_positions = np.cumsum(azimuthal_positions) * unit_spacing
 
     values, counts = np.unique(azimuthal_positions, return_counts=True)
     azimuthal_offsets = [
@@ -1042,8 +1040,7 @@ def new_xy_concatenated_sequence(
     detuning_operations = detuning_operations[detuning_operations != -1]
     detuning_positions = np.zeros(detuning_operations.shape)
     detuning_positions[detuning_operations != -3] = 1
-    detuning_positions = detuning_positions * unit_spacing
-    detuning_positions = np.cumsum(detuning_positions)
+    detuning_positions = np.cumsum(detuning_positions) * unit_spacing
 
     values, counts = np.unique(detuning_positions, return_counts=True)
     detuning_offsets = [value for value, count in zip(values, counts) if count % 2 == 0]
-- 
2.43.0


From ec3613434f6e08966812cf55c19ba2f2e9ce659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:05 +0000
Subject: [PATCH 10/15] fix: keep aliased modulated Gaussian controls an
 identity

When the modulation vanishes at the midpoints of all segments the normalization
blew rounding errors up to the maximum Rabi rate, with arbitrary signs.
---
 qctrlopencontrols/driven_controls/predefined.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qctrlopencontrols/driven_controls/predefined.py b/qctrlopencontrols/driven_controls/predefined.py
index 13b9404..ac17b41 100644
--- a/qctrlopencontrols/driven_controls/predefined.py
+++ b/qctrlopencontrols/driven_controls/predefined.py
@@ -1066,11 +1066,16 @@ def new_modulated_gaussian_control(
 
         # maximum segment value
         pulse_segments_maximum = np.max(modulated_gaussian_segments)
-        # normalize to maximum Rabi rate (a single segment is zero by antisymmetry)
-        if segment_count > 1:
+        # normalize to maximum Rabi rate, unless the modulation vanishes (up to rounding errors) at
+        # the midpoints of all segments
+        if pulse_segments_maximum > 1e-12 * np.abs(
+            2.0 * np.pi * modulation_frequency * duration
+        ) * np.max(base_gaussian_segments):
             modulated_gaussian_segments = (
                 maximum_rabi_rate * modulated_gaussian_segments / pulse_segments_maximum
             )
+        else:
+            modulated_gaussian_segments = np.zeros(segment_count)
     else:
         # for the zero-frequency pulse, we need to produce the largest possible full rotation (i.e.
         # multiple of 2pi) while respecting the maximum Rabi rate. Note that if the maximum Rabi
-- 
2.43.0


From cfb3dff665eea61ec5815e1cdbc42e7ea69c61a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:04 +0000
Subject: [PATCH 11/15] fix: make the representation of sequences with a pulse
 at the end evaluable

---
 .../dynamic_decoupling_sequence.py                           | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index 72bda62..c10161a 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -169,6 +169,11 @@ class DynamicDecouplingSequence:
             "name",
         ]
 
+        # numpy displays rounded values; an offset at the end must not be rounded beyond the duration
+        if np.any(np.isclose(self.offsets, self.duration)):
+            with np.printoptions(floatmode="unique"):
+                return create_repr_from_attributes(self, attributes)
+
         return create_repr_from_attributes(self, attributes)
 
     def __str__(self):
-- 
2.43.0


From bd9a5fb689394b9e0b0fb6fa04583994c90b5f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:04 +0000
Subject: [PATCH 12/15] fix: do not abbreviate long arrays in representations

---
 qctrlopencontrols/utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/qctrlopencontrols/utils.py b/qctrlopencontrols/utils.py
index 59c420b..d2fc05b 100644
--- a/qctrlopencontrols/utils.py
+++ b/qctrlopencontrols/utils.py
@@ -15,8 +15,11 @@
 """
 Miscellaneous functions and dataclasses.
 """
+import sys
 from enum import Enum
 
+import numpy as np
+
 from .exceptions import ArgumentsValueError
 
 
@@ -71,10 +74,12 @@ def create_repr_from_attributes(class_instance=None, attributes=None):
             )
 
     repr_string = "{0}(".format(class_name)
-    attributes_string = ",".join(
-        "{0}={1}".format(attribute, repr(getattr(class_instance, attribute)))
-        for attribute in attributes
-    )
+    # arrays must not be abbreviated, otherwise the representation cannot be evaluated
+    with np.printoptions(threshold=sys.maxsize):
+        attributes_string = ",".join(
+            "{0}={1}".format(attribute, repr(getattr(class_instance, attribute)))
+            for attribute in attributes
+        )
     repr_string += attributes_string
     repr_string += ")"
 
-- 
2.43.0


From 75c578ebb8b519a2760755054a87d3ac343190ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:34:47 +0000
Subject: [PATCH 13/15] fix: detect overlapping short pulses in long sequences

The tolerance for gaps between pulses was a fixed part of the duration of the
sequence. In a sequence that is long compared to its pulses, this accepted
pulses that overlap almost completely. The tolerance now scales with the
duration of the pulses on both sides of the gap.
---
 .../dynamic_decoupling_sequence.py                   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index c10161a..6da71b0 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -446,13 +446,13 @@ def convert_dds_to_driven_control(
     # check if the minimum_segment_duration is respected in the gaps between the pulses
     # as minimum_segment_duration >= 0, this also excludes overlaps
     gap_durations = pulse_start_ends[1:, 0] - pulse_start_ends[:-1, 1]
+    # rounded times and rotations move the ends of a pulse by a small part of its own duration
+    pulse_durations = pulse_start_ends[:, 1] - pulse_start_ends[:, 0]
+    tolerances = 1e-12 * sequence_duration + 1e-8 * (
+        pulse_durations[1:] + pulse_durations[:-1]
+    )
     if not np.all(
-        np.logical_or(
-            np.greater(gap_durations, minimum_segment_duration),
-            np.isclose(
-                gap_durations, minimum_segment_duration, atol=1e-8 * sequence_duration
-            ),
-        )
+        gap_durations >= (1 - 1e-5) * minimum_segment_duration - tolerances
     ):
         raise ArgumentsValueError(
             "Distance between pulses does not respect minimum_segment_duration. "
-- 
2.43.0


From e5a01b7dd3a8f7a69437174662598c8dd425cf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:22:08 +0000
Subject: [PATCH 14/15] fix: keep pulses far shorter than the sequence in
 conversions

---
 .../dynamic_decoupling_sequence.py                          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
index 6da71b0..9c65081 100644
--- a/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
+++ b/qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py
@@ -416,6 +416,8 @@ def convert_dds_to_driven_control(
     pulse_mid_points = operations[0, :]
 
     pulse_start_ends = np.zeros((operations.shape[1], 2))
+    # not the difference of start and end, which vanishes for pulses far shorter than the sequence
+    pulse_durations = np.zeros(operations.shape[1])
     for op_idx in range(operations.shape[1]):
         # Pulses that cause no rotations can have 0 duration
         half_pulse_duration = 0.0
@@ -430,6 +432,7 @@ def convert_dds_to_driven_control(
                 minimum_segment_duration,
             )
 
+        pulse_durations[op_idx] = 2 * half_pulse_duration
         pulse_start_ends[op_idx, 0] = pulse_mid_points[op_idx] - half_pulse_duration
         pulse_start_ends[op_idx, 1] = pulse_mid_points[op_idx] + half_pulse_duration
 
@@ -447,7 +450,6 @@ def convert_dds_to_driven_control(
     # as minimum_segment_duration >= 0, this also excludes overlaps
     gap_durations = pulse_start_ends[1:, 0] - pulse_start_ends[:-1, 1]
     # rounded times and rotations move the ends of a pulse by a small part of its own duration
-    pulse_durations = pulse_start_ends[:, 1] - pulse_start_ends[:, 0]
     tolerances = 1e-12 * sequence_duration + 1e-8 * (
         pulse_durations[1:] + pulse_durations[:-1]
     )
@@ -478,7 +480,7 @@ def convert_dds_to_driven_control(
 
     pulse_segment_idx = 0
     for op_idx in range(0, operations.shape[1]):
-        pulse_width = pulse_start_ends[op_idx, 1] - pulse_start_ends[op_idx, 0]
+        pulse_width = pulse_durations[op_idx]
         control_durations[pulse_segment_idx] = pulse_width
 
         if pulse_width > 0.0:
-- 
2.43.0


From 85873c7eaf7b2c733a53c9e6175a20c8be842dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:22:09 +0000
Subject: [PATCH 15/15] fix: allow errors to be copied and pickled

---
 qctrlopencontrols/exceptions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qctrlopencontrols/exceptions.py b/qctrlopencontrols/exceptions.py
index 7fdd3c1..43606ad 100644
--- a/qctrlopencontrols/exceptions.py
+++ b/qctrlopencontrols/exceptions.py
@@ -54,3 +54,7 @@ class ArgumentsValueError(QctrlError):
             for key in self.extras:
                 self.message += "\n" + str(key) + "=" + repr(self.extras[key])
         super().__init__(self.message)
+
+    def __reduce__(self):
+        # by default an exception is recreated from its message alone
+        return type(self), (self.description, self.arguments, self.extras), self.__dict__
-- 
2.43.0

