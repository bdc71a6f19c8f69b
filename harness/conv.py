"""
Convertible sequences by construction, and the reference for their conversion.

A case is {"T", "offsets", "rabi", "az", "det", "R", "D", "m", "kind", "name"}.
"""
import math

from hypothesis import strategies as st

from . import gen

PI = math.pi
EPS = 2.3e-16


# name of a sequence that is to be converted under another one
OTHER = st.sampled_from([None, None, "not this one", ""])


def times(ctx):
    return gen.positive(ctx, 1e-15, 1e10, nice=(1e-6, 1e-9, 5e-9, 1e-3, 100.0))


def rotation_angle(ctx):
    words = gen.dictionary(ctx, 2e-8, 1e3)
    return st.one_of(
        st.sampled_from([PI, PI / 2, PI / 4, 2 * PI, 1.0]),
        st.floats(0.01, 4 * PI),
        gen.log_uniform(2e-8, 1e3),
        st.sampled_from(words) if words else st.just(PI),
    )


def pulse(ctx):
    return st.one_of(
        st.tuples(st.just("R"), rotation_angle(ctx), gen.azimuth(ctx)),
        st.tuples(st.just("D"), rotation_angle(ctx), st.sampled_from([1.0, -1.0])),
        st.tuples(
            st.sampled_from(["R", "R", "D", "N"]),
            rotation_angle(ctx),
            st.sampled_from([1.0, -1.0]),
        ),
    )


@st.composite
def train(draw, most=10):
    """Pulses of the same angle about the coordinate axes."""
    angle = draw(st.sampled_from([PI, PI, PI / 2, 2 * PI]))
    turned = st.sampled_from([0.0, PI / 2, PI, -PI / 2])
    one = st.tuples(st.just("R"), st.just(angle), turned)
    if draw(st.booleans()):
        one = st.one_of(one, st.tuples(st.just("D"), st.just(angle), st.sampled_from([1.0, -1.0])))
    return draw(st.lists(one, min_size=1, max_size=most))


@st.composite
def convertible(draw, ctx, most=10):
    T = draw(times(ctx))
    several = [st.lists(pulse(ctx), min_size=1, max_size=4), st.lists(pulse(ctx), min_size=0, max_size=most)]
    pulses = draw(st.one_of(several * 3 + [train(most)]))
    n = len(pulses)
    at_start = n > 0 and draw(st.booleans())
    at_end = n > 0 and draw(st.booleans())
    if n == 1 and at_start and at_end:
        at_end = False
    gaps = max(1, n - 1 + (not at_start) + (not at_end))
    active = [p for p in pulses if p[0] != "N"]

    fraction = draw(
        st.one_of(st.just(0.0), st.floats(0.01, 0.9), gen.log_uniform(1e-6, 0.9))
    )
    m = fraction * T / (gaps + len(active)) if n else fraction * T
    available = T - (gaps + len(active)) * m if n else T
    full = draw(st.integers(0, 11)) == 0
    if full:
        # all pulses and gaps have exactly the minimum duration
        m, available = T / (gaps + len(active)), 0.0
    share = st.one_of(
        st.floats(0.05, 0.95), st.just(0.999), gen.log_uniform(1e-4, 0.999), gen.log_uniform(1e-9, 1e-4)
    )
    tight = gen.log_uniform(1e-7, 0.1).map(lambda v: 1 - v)
    any_rate = gen.log_uniform(1e-2, 1e4)
    kinds = {p[0] for p in active}
    part = {"R": 1.0, "D": 1.0}
    if len(kinds) == 2:
        part["R"] = draw(st.sampled_from([0.5, 0.5, 0.1, 0.95]))
        part["D"] = 1.0 - part["R"]
    elif draw(st.booleans()):
        # the pulses may take nearly all of the time
        share = tight
    sums = {}
    for k in "RD":
        total = sum(p[1] for p in active if p[0] == k)
        if total > 0:
            sums[k] = total / (draw(share) * (m if full else available * part[k]))
        else:
            sums[k] = draw(any_rate) / T
    R, D = sums["R"], sums["D"]
    # pulses must be wide enough for the floating point resolution of times
    pulses = [
        (kind, max(angle, 1e-12 * T * (R if kind == "R" else D)), extra) for kind, angle, extra in pulses
    ]

    widths = []
    for kind, angle, _ in pulses:
        if kind == "N":
            widths.append(0.0)
        else:
            widths.append(max(angle / (R if kind == "R" else D), m))
    left = 0.0 if full else T - sum(widths) - (gaps * m if n else 0)

    # which pulse (or end of the sequence: None) is on either side of each gap
    sides = []
    if not at_start:
        sides.append((None, 0 if n else None))
    sides += [(i, i + 1) for i in range(n - 1)]
    if n and not at_end:
        sides.append((n - 1, None))
    weights = []
    uneven = draw(st.integers(0, 3)) == 0
    for a, b in sides:
        null = (a is not None and pulses[a][0] == "N") or (
            b is not None and pulses[b][0] == "N"
        )
        low = 1 if null else 0
        weights.append(draw(st.integers(low, 10)))
        if uneven:
            # pulses far closer to each other or to an end than elsewhere
            weights[-1] *= 10.0 ** -draw(st.integers(0, 9))
    if weights and sum(weights) == 0:
        weights[draw(st.integers(0, len(weights) - 1))] = 1
    lengths = [m + left * w / sum(weights) for w in weights] if weights else []

    offsets = []
    position = 0.0
    g = 0
    for i in range(n):
        if not (i == 0 and at_start):
            position += lengths[g]
            g += 1
        if i == 0 and at_start:
            offsets.append(0.0)
        elif i == n - 1 and at_end:
            offsets.append(T)
        else:
            offsets.append(min(T, position + widths[i] / 2))
        position += widths[i]

    # hardware so fast that pulses are next to instantaneous
    faster = 10.0 ** draw(st.sampled_from([0] * 20 + [3, 6, 10, 14, 18, 22]))
    return {
        "T": T,
        "offsets": offsets,
        "rabi": [p[1] if p[0] == "R" else 0.0 for p in pulses],
        "az": [p[2] if p[0] == "R" else 0.0 for p in pulses],
        "det": [p[1] * p[2] if p[0] == "D" else 0.0 for p in pulses],
        "R": R * faster,
        "D": D * faster,
        "m": m,
        "kind": draw(gen.containers()),
        "name": draw(gen.name()),
        "other": draw(OTHER),
    }


@st.composite
def dense(draw, ctx, most=6):
    """
    Pulses whose own widths and distances are all about as long as the minimum
    segment duration.
    """
    m = draw(gen.positive(ctx, 1e-12, 1e6))
    R, D = [draw(st.one_of(st.just(1.0), gen.log_uniform(0.1, 10.0))) / m for _ in "RD"]
    n = draw(st.integers(1, most))
    at_start, at_end = draw(st.booleans()), n > 1 and draw(st.booleans())
    width = st.one_of(st.sampled_from([1.0, 1.5, 2.0, 0.5]), st.floats(0.3, 3.0), st.floats(0.9, 2.1))
    distance = st.one_of(st.just(1.0), st.floats(1.0, 1.5), st.floats(1.0, 4.0), st.just(2.0))
    position = 0.0
    offsets, rabi, az, det = [], [], [], []
    for i in range(n):
        if i or not at_start:
            position += m * draw(distance)
        own = draw(width) * m
        length = max(own, m)
        offsets.append(0.0 if i == 0 and at_start else position + length / 2)
        position += length
        if draw(st.booleans()):
            rabi.append(own * R)
            az.append(draw(gen.azimuth(ctx)))
            det.append(0.0)
        else:
            rabi.append(0.0)
            az.append(0.0)
            det.append(own * D * draw(st.sampled_from([1.0, -1.0])))
    if at_end:
        offsets[-1] = position
    else:
        position += m * draw(distance)
    return {
        "T": position,
        "offsets": offsets,
        "rabi": rabi,
        "az": az,
        "det": det,
        "R": R,
        "D": D,
        "m": m,
        "kind": draw(gen.containers()),
        "name": draw(gen.name()),
        "other": draw(OTHER),
    }


@st.composite
def integral(draw, ctx):
    """
    Everything on an integer grid: integer durations, offsets and rates, given
    as Python integers; rotations are chosen so that widths are integers too (but
    not all of their halves).
    """
    n = draw(st.integers(1, 5))
    unit_rates = draw(st.sampled_from([1, 2, 3]))
    position = 0
    offsets, rabi, az, det = [], [], [], []
    for i in range(n):
        position += draw(st.integers(1, 6))
        width = draw(st.integers(1, 6))
        position += (width + 1) // 2
        offsets.append(position)
        position += (width + 1) // 2
        angle = width * unit_rates
        if draw(st.booleans()):
            rabi.append(angle)
            az.append(draw(st.integers(-3, 6)))
            det.append(0)
        else:
            rabi.append(0)
            az.append(0)
            det.append(angle * draw(st.sampled_from([1, -1])))
    T = position + draw(st.integers(1, 6))
    return {
        "T": T,
        "offsets": offsets,
        "rabi": rabi,
        "az": az,
        "det": det,
        "R": unit_rates,
        "D": unit_rates,
        "m": draw(st.sampled_from([0, 0, 1])),
        "kind": draw(st.sampled_from(["ints", "intarray"])),
        "name": draw(st.sampled_from([None, "a"])),
        "other": draw(OTHER),
    }


@st.composite
def many(draw, ctx, most=400, newline=True):
    """
    Long sequences, cheaply: slots of irregular length, each with a pulse from a
    small palette somewhere in it.
    """
    n = draw(gen.size(ctx, 11, most, 20000))
    T = draw(times(ctx))
    palette = draw(st.lists(pulse(ctx), min_size=1, max_size=4))
    a, b = draw(st.integers(0, 50)), draw(st.integers(1, 50))
    chosen = [palette[(a * i * i + b * i) % len(palette)] for i in range(n)]
    weights = [1.0 + ((a + b) * i * i + b * i) % 7 / 3.0 for i in range(n)]
    total = sum(weights)
    shortest = min(weights) / total * T
    # a pulse and the gap next to it fit into half of the shortest slot
    m = draw(st.sampled_from([0.0, 0.0, 0.1, 0.2])) * shortest
    share = draw(st.floats(0.01, 0.25))
    rates = {}
    for k in "RD":
        largest = max([p[1] for p in chosen if p[0] == k] + [1e-3])
        rates[k] = largest / (share * shortest)
    offsets = []
    position = 0.0
    for i, w in enumerate(weights):
        length = w / total * T
        offsets.append(position + length * (0.5 + 0.1 * ((b * i) % 3 - 1)))
        position += length
    if draw(st.booleans()):
        offsets[0] = 0.0
    if draw(st.booleans()):
        offsets[-1] = T
    return {
        "T": T,
        "offsets": offsets,
        "rabi": [p[1] if p[0] == "R" else 0.0 for p in chosen],
        "az": [p[2] if p[0] == "R" else 0.0 for p in chosen],
        "det": [p[1] * p[2] if p[0] == "D" else 0.0 for p in chosen],
        "R": rates["R"],
        "D": rates["D"],
        "m": m,
        "kind": draw(gen.containers()),
        "name": draw(gen.name(newline)),
        "other": draw(OTHER),
    }


def sequence_step(case, label="s", name=None):
    kind = case["kind"]
    return {
        "op": "call",
        "fn": "DynamicDecouplingSequence",
        "kw": {
            "duration": case["T"],
            "offsets": gen.wrap(case["offsets"], kind),
            "rabi_rotations": gen.wrap(case["rabi"], kind),
            "azimuthal_angles": gen.wrap(case["az"], kind),
            "detuning_rotations": gen.wrap(case["det"], kind),
            "name": name,
        },
        "as": label,
    }


def convert_step(case, label="c", source="s", name=None):
    kw = {"maximum_rabi_rate": case["R"], "maximum_detuning_rate": case["D"]}
    if case["m"] or case.get("pass_m"):
        kw["minimum_segment_duration"] = case["m"]
    if name is not None:
        kw["name"] = name
    return {
        "op": "call",
        "fn": "convert_dds_to_driven_control",
        "args": [{"$ref": source}],
        "kw": kw,
        "as": label,
    }


def resolution(case):
    """What rounding may add up to over the segments of a control."""
    return 1e-13 * (1 + len(case["offsets"]) / 10) * case["T"]


def slack(T, duration):
    """Relative error of a rate or rotation over a duration found from the difference of two times."""
    return 1e-9 + min(1e-2, 16 * EPS * T / max(duration, 1e-300))


def both(case, suffix=""):
    """Builds and converts the sequence, under its names."""
    return [
        sequence_step(case, "s" + suffix, name=case.get("other")),
        convert_step(case, "c" + suffix, "s" + suffix, name=case.get("name")),
    ]


def expected_pulses(case):
    """
    [(start, end, rabi rotation, azimuth, detuning rotation)] of the non-null
    pulses, from the documented rules.
    """
    T, m = case["T"], case["m"]
    last = len(case["offsets"]) - 1
    result = []
    for i, (offset, rabi, az, det) in enumerate(
        zip(case["offsets"], case["rabi"], case["az"], case["det"])
    ):
        if rabi == 0 and det == 0:
            continue
        width = max(rabi / case["R"] if rabi else abs(det) / case["D"], m)
        start, end = offset - width / 2, offset + width / 2
        if i == 0 and offset == 0:
            start, end = 0.0, width
        elif i == last and offset == T:
            start, end = T - width, T
        result.append((start, end, rabi, az, det))
    return result


def all_gaps(case):
    """
    Free time between consecutive pulses (null ones included) and between the
    pulses and the ends of the sequence.
    """
    return gaps_and_widths(case)[0]


def gaps_and_widths(case):
    """The gaps, and for each of them the widths of the pulses next to it."""
    T, m = case["T"], case["m"]
    edges = []
    last = len(case["offsets"]) - 1
    for i, (offset, rabi, det) in enumerate(zip(case["offsets"], case["rabi"], case["det"])):
        width = 0.0
        if rabi or det:
            width = max(rabi / case["R"] if rabi else abs(det) / case["D"], m)
        start, end = offset - width / 2, offset + width / 2
        if i == 0 and offset == 0:
            start, end = 0.0, width
        elif i == last and offset == T:
            start, end = T - width, T
        edges.append((start, end))
    if not edges:
        return [T], [0.0]
    if case["offsets"][0] != 0:
        edges.insert(0, (0.0, 0.0))
    if case["offsets"][-1] != T:
        edges.append((T, T))
    gaps = [b[0] - a[1] for a, b in zip(edges, edges[1:])]
    widths = [b[1] - b[0] + a[1] - a[0] for a, b in zip(edges, edges[1:])]
    return gaps, widths


def walk(control):
    """[(start, end, rabi, az, det)] of the segments of a control."""
    position = 0.0
    result = []
    for rabi, az, det, duration in control.segments:
        result.append((position, position + duration, rabi, az, det))
        position += duration
    return result


# ----- predefined sequences ready for conversion -----------------------------


@st.composite
def predefined(draw, ctx, largest=24):
    """(factory, keyword arguments) of a predefined sequence."""
    T = draw(times(ctx))
    scheme = draw(
        st.sampled_from(
            [
                "ramsey",
                "spin_echo",
                "carr_purcell",
                "cpmg",
                "uhrig",
                "periodic",
                "walsh",
                "quadratic",
                "x_concatenated",
                "xy_concatenated",
            ]
        )
    )
    kw = {"duration": T}
    if scheme in ("carr_purcell", "cpmg", "uhrig", "periodic"):
        kw["offset_count"] = draw(gen.count(ctx, 1, largest))
    elif scheme == "walsh":
        kw["paley_order"] = draw(gen.count(ctx, 1, 64))
    elif scheme == "quadratic":
        kw["inner_offset_count"] = draw(st.integers(1, 6))
        kw["outer_offset_count"] = draw(st.integers(1, 6))
    elif scheme == "x_concatenated":
        kw["concatenation_order"] = draw(st.integers(1, 5))
    elif scheme == "xy_concatenated":
        kw["concatenation_order"] = draw(st.integers(1, 3))
    kw["pre_post_rotation"] = draw(st.booleans())
    if scheme == "xy_concatenated" and kw["concatenation_order"] % 2 == 1:
        # its last pulse is at the very end, where the post rotation would be
        kw["pre_post_rotation"] = False
    return {"scheme": scheme, "kw": kw}


def factory_step(case, label="s"):
    return {
        "op": "call",
        "fn": "new_%s_sequence" % case["scheme"],
        "kw": case["kw"],
        "as": label,
    }


def limits_for(sequence, tightness, min_share, ratio):
    """
    Maximum rates and a minimum segment duration under which the given sequence
    certainly converts; tightness and min_share in (0, 1), ratio of the rates.
    """
    T = sequence.duration
    marks = sorted(set(list(sequence.offsets) + [0.0, T]))
    spacing = min(b - a for a, b in zip(marks, marks[1:]))
    # a pulse at an end takes its whole width from one side, and its neighbour
    # half of its own: 1.5 widths + m <= spacing
    width = tightness * spacing / 3
    m = min_share * spacing / 3
    angles = [abs(r) for r in sequence.rabi] or [PI]
    largest = max(angles + [abs(d) for d in sequence.detuning])
    return {"R": largest / width, "D": ratio * largest / width, "m": m}
