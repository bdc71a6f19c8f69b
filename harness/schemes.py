"""
The predefined decoupling sequences: parameters, and their pulses in exact
arithmetic where possible. A pulse is (time as a fraction of the duration, axis).
"""
import math

from hypothesis import strategies as st

from . import conv, gen

PI = math.pi
COUNTED = ["carr_purcell", "cpmg", "uhrig", "periodic"]
ALL = ["ramsey", "spin_echo"] + COUNTED + ["walsh", "quadratic", "x_concatenated", "xy_concatenated"]
COUNTS = {
    "ramsey": [],
    "spin_echo": [],
    "carr_purcell": ["offset_count"],
    "cpmg": ["offset_count"],
    "uhrig": ["offset_count"],
    "periodic": ["offset_count"],
    "walsh": ["paley_order"],
    "quadratic": ["inner_offset_count", "outer_offset_count"],
    "x_concatenated": ["concatenation_order"],
    "xy_concatenated": ["concatenation_order"],
}
X, Y, Z = "X", "Y", "Z"


def uhrig_times(n):
    return [math.sin(i * PI / (2 * n + 2)) ** 2 for i in range(1, n + 1)]


def walsh_times(k):
    """Sign changes of the Paley-ordered Walsh function, as fractions."""
    m = k.bit_length()
    pieces = 2 ** m

    def sign(i):
        # bit j of k multiplies in the Rademacher function of the (j+1)-th binary digit
        total = 0
        for j in range(m):
            if k >> j & 1:
                total += i >> (m - 1 - j) & 1
        return total % 2

    signs = [sign(i) for i in range(pieces)]
    return [i / pieces for i in range(1, pieces) if signs[i] != signs[i - 1]]


def x_concatenated(order):
    """Times in units of duration / 2^order, the final pulse dropped."""
    events = set()
    length = 1
    for _ in range(order):
        shifted = {t + length for t in events}
        events = events ^ shifted ^ {length} ^ {2 * length}
        length *= 2
    events.discard(length)
    return [(t / length, X) for t in sorted(events)]


CODE = {X: 1, Y: 2, Z: 3}
NAMES = {1: X, 2: Y, 3: Z}


def xy_concatenated(order):
    events = {}
    length = 1
    for _ in range(order):
        combined = {}

        def add(t, code):
            combined[t] = combined.get(t, 0) ^ code

        for part, closing in enumerate((X, Y, X, Y)):
            for t, code in events.items():
                add(t + part * length, code)
            add((part + 1) * length, CODE[closing])
        events = {t: code for t, code in combined.items() if code}
        length *= 4
    return [(t / length, NAMES[events[t]]) for t in sorted(events)]


def pulses(scheme, kw):
    """Documented pulses without pre- and post-rotation."""
    values = [int(kw[key]) for key in COUNTS[scheme]]
    if scheme == "ramsey":
        return []
    if scheme == "spin_echo":
        return [(0.5, X)]
    if scheme == "carr_purcell":
        return [((i - 0.5) / values[0], X) for i in range(1, values[0] + 1)]
    if scheme == "cpmg":
        return [((i - 0.5) / values[0], Y) for i in range(1, values[0] + 1)]
    if scheme == "uhrig":
        return [(t, Y) for t in uhrig_times(values[0])]
    if scheme == "periodic":
        return [(i / (values[0] + 1), X) for i in range(1, values[0] + 1)]
    if scheme == "walsh":
        return [(t, X) for t in walsh_times(values[0])]
    if scheme == "quadratic":
        inner, outer = values
        marks = [0.0] + uhrig_times(outer) + [1.0]
        result = []
        for i in range(outer + 1):
            a, b = marks[i], marks[i + 1]
            result += [(a + (b - a) * t, Z) for t in uhrig_times(inner)]
            if i < outer:
                result.append((b, X))
        return result
    if scheme == "x_concatenated":
        return x_concatenated(values[0])
    if scheme == "xy_concatenated":
        return xy_concatenated(values[0])
    raise KeyError(scheme)


LIMITS = {
    "offset_count": (1, 1200),
    "paley_order": (1, 2000),
    "inner_offset_count": (1, 40),
    "outer_offset_count": (1, 40),
    "x": (1, 11),
    "xy": (1, 5),
}


@st.composite
def request(draw, ctx, schemes=ALL, grow=1, names=True):
    scheme = draw(st.sampled_from(list(schemes)))
    # durations are also given as integers
    kw = {"duration": draw(st.one_of([conv.times(ctx)] * 7 + [st.integers(1, 5000)]))}
    for key in COUNTS[scheme]:
        if key == "concatenation_order":
            low, high = LIMITS["x" if scheme == "x_concatenated" else "xy"]
            kw[key] = draw(st.integers(low, high + grow - 1))
        else:
            low, high = LIMITS[key]
            if key != "paley_order":
                high *= min(grow, 3)
            kw[key] = draw(gen.count(ctx, low, high, strict=key != "offset_count"))
    if scheme == "quadratic" and draw(st.integers(0, 7)) == 0:
        # many pulses in one of the two directions
        key = draw(st.sampled_from(COUNTS[scheme]))
        for other in COUNTS[scheme]:
            kw[other] = draw(st.integers(1, 4))
        kw[key] = draw(st.integers(LIMITS[key][1], 10 * LIMITS[key][1]))
    if names and draw(st.integers(0, 3)) == 0:
        kw["name"] = draw(gen.name())
    return {"scheme": scheme, "kw": kw}


def axis(pulse):
    """Names the axis of a pi pulse (None if it is not one), to 1e-9."""
    _, rabi, azimuth, detuning = pulse
    if rabi == 0 and gen.close(detuning, PI, 1e-9):
        return Z
    if detuning == 0 and gen.close(rabi, PI, 1e-9):
        if gen.same_angle(azimuth, 0.0, 1e-9):
            return X
        if gen.same_angle(azimuth, PI / 2, 1e-9):
            return Y
    return None


def compare(fail, sequence, expected, duration, precision=1e-11):
    """The pulses of a sequence against [(fraction, axis)]."""
    if not gen.close(sequence.duration, duration, 1e-15):
        fail("wrong duration", got=sequence.duration, expected=duration)
    got = sequence.pulses
    if len(got) != len(expected):
        fail("wrong number of pulses", got=len(got), expected=len(expected))
    for i, (pulse, (time, name)) in enumerate(zip(got, expected)):
        if not abs(pulse[0] - time * duration) <= precision * duration:
            fail("a pulse is at the wrong time", pulse=i, got=pulse[0], expected=time * duration)
        if axis(pulse) != name:
            fail("a pulse is of the wrong kind", pulse=i, got=pulse, expected=name)
    offsets = sequence.offsets
    if any(b <= a for a, b in zip(offsets, offsets[1:])):
        fail("the pulses do not ascend")
    if offsets and not (offsets[0] >= 0 and offsets[-1] <= duration):
        fail("a pulse is outside the duration")
