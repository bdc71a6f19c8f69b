"""Writes properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json
import os

DC = "qctrlopencontrols/driven_controls/driven_control.py"
DP = "qctrlopencontrols/driven_controls/predefined.py"
SQ = "qctrlopencontrols/dynamic_decoupling_sequences/dynamic_decoupling_sequence.py"
SP = "qctrlopencontrols/dynamic_decoupling_sequences/predefined.py"
UT = "qctrlopencontrols/utils.py"
EX = "qctrlopencontrols/exceptions.py"

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        anchors["observe_at"] = [observe]
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier={"over": over, "text": quant},
            why_tests_cant=why,
            anchors=anchors,
        )
    )


CONV = [("conversion of a sequence to a driven control", f"{SQ}: convert_dds_to_driven_control")]

prop(
    "C01",
    "A converted sequence performs the same rotations in the same order",
    "When a dynamic decoupling sequence converts to a driven control, the driven segments of the control are, in order and one for one, the sequence's pulses (rotations above a numerical zero of 1e-8): the same Rabi rotation angle about the same azimuth, or the same signed detuning rotation. "
    "Everything between the pulses is idle (zero Rabi rate and zero detuning), so the control's total unitary is the product of the sequence's pulses. "
    "The control carries the name given to the conversion.",
    ["inputs", "configurations"],
    "for every convertible sequence (any number of pulses, X/Y/arbitrary-azimuth, positive and negative Z pulses, null pulses, pulses at the very start or end, predefined or hand-made; rotations of at most 1e-8 count as zero), every pair of maximum rates and every minimum segment duration",
    "Tests convert a handful of hand-written sequences with unit rates; lost or re-weighted rotations only show for particular combinations of pulse kinds, positions, signs, widths and time scales.",
    [SQ, DC],
    CONV,
    "rates, angles and durations of the segments of the returned control",
)
prop(
    "C02",
    "Converted pulses keep the sequence's timing",
    "The control obtained from a sequence lasts exactly as long as the sequence, and each pulse occupies a segment centred on its offset. "
    "Only a first pulse placed at time zero and a last pulse placed at the end are moved, just enough to start at zero or to finish at the end of the sequence.",
    ["inputs", "configurations"],
    "for every convertible sequence, including ones with pulses touching each other, at the boundaries, with tiny or very long total duration, and every choice of rates and minimum segment duration",
    "The tests compare a few total durations; wrong placement of individual pulses for unequal widths, boundary pulses or unusual time scales is not looked at.",
    [SQ],
    CONV,
    "segment boundary times of the returned control",
)
prop(
    "C03",
    "Converted controls respect the hardware limits",
    "No segment of a converted control exceeds the given maximum Rabi rate or maximum detuning rate (in magnitude), and none is shorter than the given minimum segment duration. "
    "Each pulse is a single flat segment as short as these limits allow: it lasts its rotation divided by the matching maximum rate, or the minimum segment duration if that is longer.",
    ["inputs", "configurations"],
    "for every convertible sequence and every combination of maximum Rabi rate, maximum detuning rate (equal or very different) and minimum segment duration (zero, shorter or longer than the pulses)",
    "Limits are only stressed when rates differ, minimum durations stretch some pulses but not others, and signs mix; example tests fix one set of limits.",
    [SQ],
    CONV,
    "rates and durations of the segments of the returned control",
)
prop(
    "C04",
    "Conversion succeeds exactly when the sequence is realisable",
    "A sequence whose pulses are sorted in time, are each a non-negative Rabi rotation or a detuning rotation but not both, and leave at least the minimum segment duration between each other and the sequence ends always converts. "
    "A sequence with unsorted or coinciding offsets, negative Rabi rotations, combined Rabi and detuning pulses, overlapping pulses, gaps shorter than the minimum, or with non-positive rates or a negative minimum duration is refused with the package's argument error and nothing else.",
    ["inputs", "configurations", "fault_sequences"],
    "for every sequence and limits, and for every single way of spoiling a convertible one: at any pulse position, with any sign, magnitude and time scale",
    "Each refusal is tested once on one fixed sequence; refusals and acceptances depend on position, sign, scale and on the interplay of width, gap and minimum duration.",
    [SQ],
    CONV + [("pulse validity check", f"{SQ}: _check_valid_operation")],
    "outcome (control or exception type) of the conversion",
)
prop(
    "C05",
    "Changing the time unit rescales results and changes nothing else",
    "Expressing the same problem in another time unit (all times multiplied and all rates divided by one factor) yields the same control, sequence or conversion with times and rates rescaled, and the same acceptance or refusal. "
    "Angles, rotations, directions, number of segments and normalised values stay the same.",
    ["inputs", "configurations"],
    "for every control, sequence, conversion, and predefined scheme, and every unit factor between about 1e-9 and 1e9",
    "Tests run at one or two time scales, so absolute tolerances or hidden unit constants go unnoticed.",
    [DC, DP, SQ, SP],
    CONV
    + [
        ("derived control quantities", f"{DC}: DrivenControl properties"),
        ("predefined controls", f"{DP}: new_*_control"),
        ("predefined sequences", f"{SP}: new_*_sequence"),
    ],
    "numeric attributes of the objects built at both scales",
)
prop(
    "C06",
    "A driven control stores exactly what it was given or refuses it",
    "Building a driven control from durations and optional Rabi rates, azimuthal angles and detunings keeps every value exactly, in order, as floating point numbers, with zeros for whatever is omitted, and keeps the name. "
    "It is refused with the package's argument error if any duration is not positive, any Rabi rate is negative, or the lengths differ; all other real-valued inputs are accepted.",
    ["inputs"],
    "for every combination of given and omitted fields, lengths from one to hundreds, lists, tuples, integer or float arrays, and a defect at any position",
    "Tests check one defective entry per field in short lists; the position, type and combination of fields matter.",
    [DC, UT],
    [("control construction", f"{DC}: DrivenControl.__init__")],
    "public attributes of the control",
)
prop(
    "C07",
    "Derived quantities of a control match their definitions",
    "For every segment the x and y amplitudes, rotation angle and unit rotation direction are those of the vector (Rabi rate times cosine and sine of the azimuth, detuning), with a zero direction where the vector is zero. "
    "Boundary times start at zero and grow by the durations; total, longest and shortest duration, largest Rabi rate, largest detuning and number of segments agree with the stored values.",
    ["inputs"],
    "for every valid control: any number of segments, signs, zero segments, azimuths of any size and magnitudes from 1e-30 to 1e30, up to fifteen orders of magnitude apart within one control",
    "Tests use a few small controls; sign, scale mixing and zero-amplitude handling need many combinations.",
    [DC],
    [("derived quantities", f"{DC}: DrivenControl properties")],
    "public properties of the control",
)
prop(
    "C08",
    "An exported control file contains the whole control",
    "Exporting a driven control to CSV or JSON in Cartesian or cylindrical coordinates writes a complete, standard-conforming file from which every segment's amplitudes (or Rabi rate and azimuth) times the stated maximum Rabi rate, detuning and duration are recovered at full precision and in order. "
    "The amplitudes are normalised to the maximum Rabi rate, JSON carries the name exactly when there is one, and a file already present under that name is entirely replaced.",
    ["inputs", "configurations"],
    "for every control (named, unnamed, without drive, with tiny or huge values, many segments), both file types, both coordinate systems, fresh and pre-existing target files",
    "Tests export one small named control per format and compare selected values; precision, unnamed, undriven and overwriting cases are not covered.",
    [DC],
    [("file export", f"{DC}: DrivenControl.export_to_file")],
    "bytes of the written file",
)
prop(
    "C09",
    "An exported sequence file describes the converted sequence",
    "Exporting a dynamic decoupling sequence to a file writes exactly what exporting its conversion with the same maximum rates, and the sequence's name, would write. "
    "The maximum rates default to 2*pi, and a sequence that cannot be converted under them is refused with the package's argument error and writes no file.",
    ["inputs", "configurations"],
    "for every sequence, maximum Rabi and detuning rate (given or defaulted), file type and coordinate system",
    "Tests only look at one sequence with one pair of rates, equal to each other.",
    [SQ, DC],
    [
        ("sequence file export", f"{SQ}: DynamicDecouplingSequence.export_to_file"),
        ("file export", f"{DC}: DrivenControl.export_to_file"),
    ],
    "bytes of the written file",
)
prop(
    "C10",
    "Plot data of a control describes every segment",
    "The plotting export of a control lists, per channel, one entry per segment in order with that segment's duration. "
    "In cylindrical form the complex Rabi value has the segment's rate as modulus and azimuth as phase, in Cartesian form X and Y are its real and imaginary parts, and detunings are always the stored ones; with dimensionless rates the Rabi values are divided by the maximum Rabi rate, otherwise not. Coordinates other than these two are refused with the package's argument error.",
    ["inputs", "configurations"],
    "for every control including undriven ones, both coordinate systems, dimensionless or not",
    "Tests compare two small controls in default settings.",
    [DC],
    [("plot export", f"{DC}: DrivenControl.export")],
    "returned dictionary",
)
prop(
    "C11",
    "Plot data of a sequence describes every pulse",
    "The plotting export of a sequence lists one Rabi and one detuning entry per pulse in order, each at the pulse's offset. "
    "The complex Rabi value has the pulse's rotation as modulus and its azimuth as phase; the detuning value is the signed detuning rotation.",
    ["inputs"],
    "for every sequence, hand-made or predefined, with any mix of pulses including none at all",
    "Tests compare one short sequence.",
    [SQ],
    [("plot export", f"{SQ}: DynamicDecouplingSequence.export")],
    "returned dictionary",
)
prop(
    "C12",
    "Composite controls perform the requested rotation",
    "Every predefined single-qubit control (primitive, BB1, SK1, SCROFULOUS, CORPSE, their CORPSE concatenations and WAMF1) implements, in the absence of noise, the rotation by the requested angle about the equatorial axis at the requested azimuth, up to a global phase. "
    "This holds to numerical precision, except for the tabulated SCROFULOUS angles which hold to a few parts in a thousand.",
    ["inputs", "configurations"],
    "for every supported rotation angle (continuous up to 4 pi, or the three discrete ones), maximum Rabi rate and azimuth",
    "Tests compare segment lists at a couple of angles against formulas copied from the code; they never multiply out the unitary nor sweep the angle.",
    [DP, DC],
    [("predefined controls", f"{DP}: new_*_control")],
    "unitary computed from the segments of the control",
)
prop(
    "C13",
    "Amplitude-robust controls cancel small amplitude errors",
    "For BB1, SK1, SCROFULOUS and the CORPSE concatenations inside them, a small common relative error of all Rabi rates changes the resulting unitary only to second order in that error. "
    "The primitive control shows that first-order change, so the cancellation is due to the composition.",
    ["inputs", "configurations"],
    "for every supported rotation angle, azimuth, maximum Rabi rate and small error",
    "No test looks at the effect of noise at all.",
    [DP],
    [("predefined controls", f"{DP}: new_*_control")],
    "derivative of the unitary computed from the segments",
)
prop(
    "C14",
    "Dephasing-robust controls cancel small detuning errors",
    "For CORPSE, WAMF1 and the CORPSE concatenations inside BB1, SK1 and SCROFULOUS, a small constant detuning error during the control changes the resulting unitary only to second order in that error.",
    ["inputs", "configurations"],
    "for every supported rotation angle, azimuth, maximum Rabi rate and small error",
    "No test looks at the effect of noise at all.",
    [DP],
    [("predefined controls", f"{DP}: new_*_control")],
    "derivative of the unitary computed from the segments",
)
prop(
    "C15",
    "Composite controls have the documented segments",
    "Each predefined control has exactly the segments of its documented table: their number, order, rotation angle and phase offset from the requested azimuth. "
    "All segments run at the maximum Rabi rate (WAMF1: its outer ones, the inner ones below it) with zero detuning, so raising the maximum rate only shortens durations and changing the azimuth only shifts all phases equally.",
    ["inputs", "configurations"],
    "for every scheme, rotation angle in its domain, maximum Rabi rate and azimuth",
    "Tests check the tables at one or two angles and mostly at azimuth zero or a single other value.",
    [DP],
    [("predefined controls", f"{DP}: new_*_control")],
    "segments of the returned control",
)
prop(
    "C16",
    "Predefined controls accept exactly their documented parameters",
    "A predefined control is built for every positive maximum Rabi rate and every supported rotation angle (positive; at most 4 pi for BB1, SK1 and CORPSE inside them; only pi/4, pi/2 or pi for SCROFULOUS, CORPSE in SCROFULOUS and WAMF1), whatever the azimuth, and carries the given name. "
    "Any other rate or angle, including zero, negative, too large or undefined values, is refused with the package's argument error.",
    ["inputs", "fault_sequences"],
    "for every scheme and all parameter values on, near and beyond the limits of its domain",
    "Tests try one bad value per parameter for some schemes; the domain edges and the interior are not swept.",
    [DP, DC],
    [
        ("parameter checks", f"{DP}: _validate_rabi_parameters"),
        ("angle range check", f"{DP}: _get_transformed_rabi_rotation_wimperis"),
    ],
    "outcome (control or exception type)",
)
prop(
    "C17",
    "Modulated Gaussian controls are identity gates within the limits",
    "A modulated Gaussian control has the requested total duration, split into as many equal segments as the minimum segment duration permits, no detuning, and the net effect of an identity gate; its shape is a Gaussian of width a tenth of the duration centred in the middle, times a sine of the given frequency that vanishes there. "
    "Its largest Rabi rate is the maximum one; at zero frequency it is instead the largest full number of turns that the maximum rate permits. "
    "Non-positive limits, a duration not above the minimum segment duration, or a maximum rate too small for a full turn are refused with the package's argument error.",
    ["inputs", "configurations"],
    "for every maximum rate, minimum segment duration, duration (multiple of it or not) and positive, negative or zero frequency",
    "Tests compare two parameter sets against the same formulas, with a duration that is a multiple of the segment duration.",
    [DP],
    [("modulated Gaussian control", f"{DP}: new_modulated_gaussian_control")],
    "segments of the returned control",
)
prop(
    "C18",
    "Single-axis sequences place their pulses at the documented times",
    "Ramsey sequences have no inner pulse and spin echo one X pi pulse in the middle; Carr-Purcell and CPMG place n pi pulses (X and Y respectively) at (i-1/2)/n of the duration, Uhrig n Y pi pulses at sin^2(i*pi/(2n+2)), periodic n X pi pulses at i/(n+1). "
    "Offsets ascend strictly inside the duration and no pulse carries any detuning rotation.",
    ["inputs", "configurations"],
    "for every duration and every number of pulses, including one, odd, even and hundreds",
    "Tests pin the offsets for one or two small counts per scheme.",
    [SP, SQ],
    [
        ("sequence factories", f"{SP}: new_*_sequence"),
        ("Carr-Purcell times", f"{SP}: _carr_purcell_meiboom_gill_offsets"),
        ("Uhrig times", f"{SP}: _uhrig_single_axis_offsets"),
    ],
    "attributes of the returned sequence",
)
prop(
    "C19",
    "Walsh sequences follow the Paley-ordered Walsh function",
    "The Walsh sequence of Paley order k applies an X pi pulse at every sign change of the k-th Paley-ordered Walsh function stretched over the duration, and nowhere else.",
    ["inputs"],
    "for every Paley order from 1 to 2000 and every duration",
    "Tests pin a few orders; a defect can affect single orders or orders with a particular bit pattern.",
    [SP],
    [("Walsh sequence", f"{SP}: new_walsh_sequence")],
    "attributes of the returned sequence",
)
prop(
    "C20",
    "Quadratic sequences nest Uhrig sequences",
    "A quadratic sequence with n1 inner and n2 outer pulses places n2 X pi pulses at the Uhrig times of the whole duration and, in each of the n2+1 intervals they delimit, n1 Z pi pulses at the Uhrig times of that interval. "
    "The pulses are in ascending order and n1 + n2(n1+1) in number.",
    ["inputs", "configurations"],
    "for every duration and every pair of counts, equal or not",
    "Tests pin one or two pairs of counts.",
    [SP],
    [("quadratic sequence", f"{SP}: new_quadratic_sequence")],
    "attributes of the returned sequence",
)
prop(
    "C21",
    "Concatenated sequences follow their recursion",
    "The X- and XY-concatenated sequences of order l consist of the pulses of their documented recursion over 2^l or 4^l equal time units, where pulses falling on the same instant combine (two equal ones vanish, X and Y give a Z pi pulse, and so on) and a single X pulse left exactly at the end of an X-concatenated sequence is dropped. "
    "The pulses are in ascending order within the duration.",
    ["inputs"],
    "for every concatenation order and every duration",
    "Tests pin orders up to two or three; higher orders go through other branches of the merging.",
    [SP],
    [
        ("concatenated sequences", f"{SP}: new_x_concatenated_sequence, new_xy_concatenated_sequence"),
        ("recursions", f"{SP}: _concatenation_x, _concatenation_xy"),
    ],
    "attributes of the returned sequence",
)
prop(
    "C22",
    "Decoupling sequences cancel slow noise to their order",
    "Applying a decoupling sequence's pi pulses to a slowly varying perturbation averages it out over the duration: constant dephasing for spin echo, Carr-Purcell, CPMG, odd periodic and Walsh sequences, polynomial dephasing of degree below n for Uhrig, below l for X-concatenated order l and below the number of one bits of k for Walsh order k. "
    "Quadratic and XY-concatenated sequences do so for perturbations along all three axes, to degree below the smaller count and below the order respectively.",
    ["inputs", "configurations"],
    "for every scheme, duration, count or order and all polynomial degrees below the order of the sequence",
    "No test evaluates what the sequences are for; tests only repeat offset tables.",
    [SP],
    [("sequence factories", f"{SP}: new_*_sequence")],
    "switching functions computed from the offsets and rotations",
)
prop(
    "C23",
    "Pre- and post-rotations frame a sequence without changing it",
    "Asking for pre- and post-rotations adds exactly one X pi/2 pulse at time zero and one at the end whose azimuth is 0 or pi, leaving all other pulses as they are without them. "
    "The sign of the last one is such that the net effect of all pulses is an identity or a Z pi rotation up to a global phase.",
    ["inputs", "configurations"],
    "for every predefined sequence, duration and count or order",
    "Tests check a few counts; which sign is right depends on the parity of the number of X, Y and Z pulses.",
    [SP],
    [("pre/post rotations", f"{SP}: _add_pre_post_rotations")],
    "attributes of the returned sequences with and without the option",
)
prop(
    "C24",
    "A sequence stores exactly what it was given or refuses it",
    "Building a sequence from a duration, offsets, Rabi rotations, azimuthal angles and detuning rotations keeps every value exactly and in order, and keeps the name. "
    "It is refused with the package's argument error if the duration is not positive, an offset lies outside the interval from zero to the duration, or the four lists differ in length; everything else, including no pulses at all, is accepted.",
    ["inputs"],
    "for every list length, any values, lists or arrays of integers or floats, and a defect at any position",
    "Tests try one defect of each kind at one position.",
    [SQ],
    [("sequence construction", f"{SQ}: DynamicDecouplingSequence.__init__")],
    "public attributes of the sequence",
)
prop(
    "C25",
    "Predefined sequences accept exactly their documented parameters",
    "A predefined sequence is built for every positive duration and every count or order of at least one (Paley orders up to 2000), integer or integer-valued float, lasts that duration and carries the given name. "
    "Non-positive or undefined durations, counts or orders below one and Paley orders above 2000 are refused with the package's argument error.",
    ["inputs", "fault_sequences"],
    "for every scheme, with or without pre/post rotations, and all parameter values on, near and beyond the limits",
    "Tests try one bad value per parameter.",
    [SP],
    [("sequence factories", f"{SP}: new_*_sequence")],
    "outcome and attributes of the returned sequence",
)
prop(
    "C26",
    "Operations have no side effects and do not depend on history",
    "Building, deriving quantities, representing, exporting or converting never changes the control, the sequence, the caller's arrays or process-wide settings such as numpy's print options, and writes nothing but the requested file. "
    "Every call's result depends only on its arguments and the current contents of the objects involved, whatever was built, converted, refused or exported before and whatever the caller did with earlier results. Changing one field of an object in place changes no other field or object, unless the caller gave both the same array.",
    ["histories", "inputs"],
    "for every sequence of operations on several live controls and sequences, including failing ones and modification of earlier results by the caller",
    "Each test makes one call on fresh objects; shared state, caching and in-place modification only show over a history.",
    [DC, DP, SQ, SP],
    CONV
    + [
        ("derived quantities", f"{DC}: DrivenControl properties"),
        ("sequence factories", f"{SP}: new_*_sequence"),
        ("control factories", f"{DP}: new_*_control"),
    ],
    "snapshots of all live objects after every step and a fresh recomputation of every result",
)
prop(
    "C27",
    "Printed controls and sequences show their true values",
    "Printing a driven control or a sequence shows its name if it has one, and one line per quantity in which the listed normalised numbers times the stated scale give back the stored values in order.",
    ["inputs"],
    "for every control and sequence: signs, all-zero quantities, only negative detunings, any magnitude, no pulses, with or without a name",
    "Tests compare the text of two or three fixed objects.",
    [DC, SQ],
    [
        ("text of a control", f"{DC}: DrivenControl.__str__"),
        ("text of a sequence", f"{SQ}: DynamicDecouplingSequence.__str__"),
    ],
    "text returned by str()",
)
prop(
    "C28",
    "The representation of an object recreates it",
    "Evaluating the representation of a driven control or a sequence as a Python expression recreates an object of the same kind with the same name and, to the displayed precision, the same values in every field.",
    ["inputs"],
    "for every control and sequence of moderate size, any name and any magnitudes",
    "Tests compare the text of two fixed objects.",
    [DC, SQ, UT],
    [("representation", f"{UT}: create_repr_from_attributes")],
    "object obtained by evaluating repr()",
)
prop(
    "C29",
    "Refused calls explain themselves and touch nothing",
    "Every refusal is the package's argument error, whose text is its description followed by the name and representation of each argument (and extra) it reports, the reported arguments being those of the refusing function under their own names and with the given values, and including an invalid one. "
    "A refused export (unknown format, file type or coordinates, or an unconvertible sequence) neither creates a file nor modifies an existing one, and the objects involved stay usable.",
    ["inputs", "fault_sequences"],
    "for every public operation and every kind of invalid argument, with and without a pre-existing target file",
    "Tests only check that some exception of the right type is raised.",
    [EX, UT, DC, SQ, DP, SP],
    [
        ("argument error", f"{EX}: ArgumentsValueError"),
        ("argument checks", f"{UT}: check_arguments"),
        ("file export", f"{DC}: DrivenControl.export_to_file"),
    ],
    "exception attributes, directory contents and file bytes",
)

prop(
    "C30",
    "Relaxing the demands on a conversion never makes it fail",
    "If a sequence converts under some limits, it also converts under higher maximum rates, under a shorter minimum segment duration, with some of its pulses left out, or with idle time appended after its last pulse when that is not at the very end. "
    "Under unchanged limits the remaining pulses keep their segments, wherever other pulses were left out or idle time was appended.",
    ["inputs", "configurations"],
    "for every sequence that converts, however close its gaps are to the minimum, and every combination of relaxations",
    "Acceptance on the boundary is a matter of tolerances; tests try a few sequences far from it.",
    [SQ],
    CONV,
    "the two converted controls",
)

prop(
    "C31",
    "Conversion respects the symmetries of the problem",
    "Reversing a sequence in time, adding one angle to all azimuths, negating all detuning rotations, or multiplying all rotations and both maximum rates by one positive factor changes the converted control in the same way and in no other. "
    "A sequence is refused exactly when its image is.",
    ["inputs", "configurations"],
    "for every convertible sequence and every clearly unrealisable one, limits, angle and factor",
    "Tests compare single conversions with stored numbers and never two related ones.",
    [SQ],
    CONV,
    "the two converted controls",
)

prop(
    "C32",
    "The form in which arguments are given does not matter",
    "Every public call gives the same result whether arguments are given by keyword or by position in their documented order, whether optional ones with their documented default are given or left out, and whether flags are Python or numpy booleans, numbers Python or numpy integers or floats, and number lists lists, tuples or arrays of them. "
    "The defaults are: no name, azimuth 0, no pre- and post-rotation, minimum segment duration 0, cylindrical coordinates, dimensionless plot data, CSV files in the Q-CTRL expanded format, and maximum rates of 2*pi for the file of a sequence.",
    ["inputs", "configurations"],
    "for every public class, factory, conversion and export, valid arguments, number and container types, split into positional and keyword arguments, and omitted defaults",
    "Tests call each function in one form, mostly by keyword with floats.",
    [DC, DP, SQ, SP],
    [
        ("constructors", f"{DC}: DrivenControl.__init__"),
        ("sequence factories", f"{SP}: new_uhrig_sequence"),
        ("control factories", f"{DP}: new_primitive_control"),
        ("exports", f"{DC}: DrivenControl.export_to_file"),
    ],
    "results of the two calls and the contents of the two files",
)

prop(
    "C33",
    "Schemes agree wherever they describe the same pulses",
    "One-pulse Carr-Purcell, periodic and Walsh sequences equal spin echo, CPMG has the times of Carr-Purcell, Uhrig with one or two pulses equals CPMG, Walsh orders 2^k, 3*2^(k-1) and 2^k-1 equal the periodic (2^(k+1)-1 pulses), Carr-Purcell (2^k pulses) and X-concatenated (order k) sequences, and the X pulses of a quadratic sequence are at the Uhrig times of the outer count. "
    "BB1 and SK1 begin with the primitive control; CORPSE in BB1 or SK1 begins with CORPSE and continues like BB1 or SK1; CORPSE in SCROFULOUS replaces each SCROFULOUS segment by the CORPSE control of its rotation and azimuth.",
    ["inputs", "configurations"],
    "for every duration, count or order, with or without pre- and post-rotations, and every rotation angle, rate and azimuth",
    "Each scheme is tested alone against stored numbers for a few parameters.",
    [DP, SP],
    [
        ("sequence factories", f"{SP}: new_walsh_sequence"),
        ("control factories", f"{DP}: new_corpse_in_scrofulous_control"),
    ],
    "the pulses and segments of the two objects",
)

prop(
    "C34",
    "The error type and the shared helpers behave as documented",
    "An ArgumentsValueError keeps its description, arguments and extras, is a QctrlError, and its message and text are the description followed by a line name=representation for each argument and then each extra, in their order. "
    "check_arguments does nothing when its condition is true and otherwise raises that error with exactly what it was given. "
    "create_repr_from_attributes gives Class(name=representation,...) in the order of the given names, the documented sentence for an empty list, and the argument error for a missing instance, missing list or a name that is not a string.",
    ["inputs"],
    "for every description, argument and extra table, condition, attribute list and kind of value",
    "Tests only see these helpers through other functions and never check the text of an error.",
    [EX, UT],
    [
        ("argument error", f"{EX}: ArgumentsValueError"),
        ("argument checks", f"{UT}: check_arguments"),
        ("representation", f"{UT}: create_repr_from_attributes"),
    ],
    "attributes and text of the error, returned text",
)

prop(
    "C35",
    "Controls, sequences and errors survive copying and pickling",
    "Copying a driven control, a sequence or the package's argument error (shallowly or deeply), or pickling and unpickling it under any protocol, gives an object of the same kind with the same contents. "
    "Controls and sequences keep every value exactly and their name, and have the same text, representation, plot data, derived quantities and conversion; errors keep their description, arguments, extras, message and text. "
    "A deep or unpickled copy is independent of the original: changing one leaves the other as it is.",
    ["inputs"],
    "for every control, sequence and refusal, every way of copying and every pickle protocol",
    "Tests never copy or pickle anything, and refusals inside worker processes are lost if errors cannot be unpickled.",
    [EX, DC, SQ],
    [
        ("argument error", f"{EX}: ArgumentsValueError"),
        ("control", f"{DC}: DrivenControl"),
        ("sequence", f"{SQ}: DynamicDecouplingSequence"),
    ],
    "fields, texts and behaviour of the copy next to those of the original",
)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
