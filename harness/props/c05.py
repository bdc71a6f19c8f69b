import math

from hypothesis import strategies as st

from .. import conv, ctrl, gen, presets
from ..core import Component, fail
from .c04 import problem, spoiled

ASSUMPTIONS = ["factors between 1e-9 and 1e9; comparisons to 1e-9 relative"]


def factor(ctx):
    return st.one_of(
        st.sampled_from([1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9, 2.0 ** -30, 2.0 ** 30]),
        gen.log_uniform(1e-9, 1e9),
    )


def with_factor(strategy, ctx):
    return st.tuples(strategy, factor(ctx)).map(lambda p: {"base": p[0], "factor": p[1]})


def matched(label, a, b, factor, rel=1e-9, floor=0.0):
    """b must be a times the factor."""
    if len(a) != len(b):
        fail("different number of values", what=label, base=len(a), scaled=len(b))
    for index, (x, y) in enumerate(zip(a, b)):
        if not gen.close(x * factor, y, rel, floor * abs(factor)):
            fail("a value does not rescale", what=label, index=index, base=x, scaled=y, factor=factor)


def compare_controls(a, b, s, span=None):
    T = sum(a.durations)
    # durations come from differences of times: compare on the scale of the whole
    matched("durations", a.durations, b.durations, s, floor=1e-12 * T)
    for index, (x, y) in enumerate(zip(a.segments, b.segments)):
        for k, name in ((0, "rabi rate"), (2, "detuning")):
            if not gen.close(x[k] * x[3], y[k] * y[3], conv.slack(T, x[3]), 1e-12):
                fail("a rotation changes with the time unit", what=name, index=index, base=x, scaled=y)
            slack = 1e-9 + 32 * conv.EPS * T / x[3]
            if not gen.close(x[k] / s, y[k], slack):
                fail("a rate does not rescale", what=name, index=index, base=x, scaled=y, factor=s)
        if not gen.close(x[1], y[1], 1e-9, 1e-9):
            fail("an azimuth changes with the time unit", index=index, base=x, scaled=y)


def scale_conversion(case, s):
    scaled = dict(case)
    scaled["T"] = case["T"] * s
    scaled["offsets"] = [
        0.0 if o == 0 else scaled["T"] if o == case["T"] else min(o * s, scaled["T"])
        for o in case["offsets"]
    ]
    scaled["R"] = case["R"] / s
    scaled["D"] = case["D"] / s
    scaled["m"] = case["m"] * s
    return scaled


def check_convert(ctx, case):
    base, s = case["base"], case["factor"]
    scaled = scale_conversion(base, s)
    _, first, _, second = ctx.run(
        [
            *conv.both(base, "1"),
            *conv.both(scaled, "2"),
        ]
    )
    if "spoiled" in base:
        if problem(base) is None or problem(scaled) is None:
            return False
        for result in (first, second):
            gen.expect_refusal(fail, result, "a sequence that cannot be realised, at one of two time scales,")
        return "refused"
    a = gen.expect_control(fail, first, "the conversion at the base scale")
    b = gen.expect_control(fail, second, "the conversion at the other scale")
    # slivers left by rounding between touching pulses are not part of the comparison
    T = base["T"]
    strip(a, 1e-13 * T)
    strip(b, 1e-13 * T * s)
    compare_controls(a, b, s)
    return "converted" if base["offsets"] else False


def strip(control, threshold):
    keep = [
        i
        for i, seg in enumerate(control.segments)
        if seg[0] or seg[2] or seg[3] > threshold
    ]
    for name in ("durations", "rabi", "azimuth", "detuning"):
        values = getattr(control, name)
        setattr(control, name, [values[i] for i in keep])


NAMES = ["angles", "directions", "times", "amplitude_x", "amplitude_y", "duration",
         "maximum_rabi_rate", "maximum_detuning", "maximum_duration", "minimum_duration",
         "number_of_segments"]
POWER = {"angles": 0, "directions": 0, "times": 1, "amplitude_x": -1, "amplitude_y": -1,
         "duration": 1, "maximum_rabi_rate": -1, "maximum_detuning": -1,
         "maximum_duration": 1, "minimum_duration": 1, "number_of_segments": 0}


def check_derived(ctx, case):
    base, s = case["base"], case["factor"]
    scaled = dict(base)
    scaled["durations"] = [v * s for v in base["durations"]]
    for key in ("rabi", "det"):
        if base[key] is not None:
            scaled[key] = [v / s for v in base[key]]
    steps = []
    for label, item in (("a", base), ("b", scaled)):
        steps += [
            ctrl.step(item, label),
            {"op": "get", "obj": label, "names": NAMES},
            {"op": "method", "obj": label, "name": "export", "kw": {"coordinates": "cartesian"}},
        ]
    r = ctx.run(steps)
    one = gen.table(gen.expect_ok(fail, r[1], "a derived quantity"))
    two = gen.table(gen.expect_ok(fail, r[4], "a derived quantity"))
    for name in NAMES:
        x, y = one[name], two[name]
        x = gen.values(x) if isinstance(x, dict) else [x]
        y = gen.values(y) if isinstance(y, dict) else [y]
        biggest = max([abs(v) for v in x] + [0.0])
        floor = {"directions": 1e-9, "times": 1e-12 * biggest}.get(name, 1e-13 * biggest if "amplitude" in name else 0)
        matched(name, x, y, s ** POWER[name], floor=floor)
    p = gen.table(gen.expect_ok(fail, r[2], "the plot export"))
    q = gen.table(gen.expect_ok(fail, r[5], "the plot export"))
    for channel, power in (("X amplitude", 0), ("Y amplitude", 0), ("Detuning", -1)):
        x = [gen.table(e)["value"] for e in p[channel]]
        y = [gen.table(e)["value"] for e in q[channel]]
        matched("plotted " + channel, x, y, s ** power, floor=1e-12 if power == 0 else 0.0)
    return True


def check_preset(ctx, case):
    base, s = case["base"], case["factor"]
    kw = dict(base["kw"])
    kw["maximum_rabi_rate"] = kw["maximum_rabi_rate"] / s
    r = ctx.run(
        [
            {"op": "call", "fn": base["fn"], "kw": base["kw"]},
            {"op": "call", "fn": base["fn"], "kw": kw},
        ]
    )
    a = gen.expect_control(fail, r[0], "a predefined control")
    b = gen.expect_control(fail, r[1], "a predefined control in another time unit")
    compare_controls(a, b, s)
    return base["fn"]


def check_gaussian(ctx, case):
    base, s = case["base"], case["factor"]
    kw = dict(base)
    kw["maximum_rabi_rate"] = kw["maximum_rabi_rate"] / s
    kw["minimum_segment_duration"] *= s
    kw["duration"] *= s
    kw["modulation_frequency"] /= s
    r = ctx.run(
        [
            {"op": "call", "fn": "new_modulated_gaussian_control", "kw": base},
            {"op": "call", "fn": "new_modulated_gaussian_control", "kw": kw},
        ]
    )
    a = gen.expect_control(fail, r[0], "a modulated Gaussian control")
    b = gen.expect_control(fail, r[1], "a modulated Gaussian control in another time unit")
    if len(a.durations) != len(b.durations):
        ratio = base["duration"] / base["minimum_segment_duration"]
        if abs(ratio - round(ratio)) < 1e-7 * ratio:
            return False
        fail("different number of segments", base=len(a.durations), scaled=len(b.durations))
    matched("durations", a.durations, b.durations, s)
    if base["modulation_frequency"] == 0:
        # next to a whole number of turns rounding decides: compare the shape only
        top_a, top_b = max(a.rabi), max(b.rabi)
        matched("shape", [v / top_a for v in a.rabi], [v / top_b for v in b.rabi], 1.0, rel=1e-7)
        turns = sum(x * d for x, d in zip(a.rabi, a.durations))
        other = sum(x * d for x, d in zip(b.rabi, b.durations))
        if not gen.close(turns, other, 1e-7):
            excess = turns if base["maximum_rabi_rate"] <= top_a else turns * base["maximum_rabi_rate"] / top_a
            remainder = abs(excess / (2 * math.pi) - round(excess / (2 * math.pi)))
            if remainder > 1e-6:
                fail("different number of turns", base=turns, scaled=other)
        return "zero frequency"
    top = max(abs(v) for v in presets.gaussian_reference(base, len(a.durations)))
    if top < 1e-4 * min(1.0, abs(2 * math.pi * base["modulation_frequency"] * base["duration"])):
        return False  # the modulation (nearly) vanishes on all segments
    signed_a = [x * math.cos(p) for x, p in zip(a.rabi, a.azimuth)]
    signed_b = [x * math.cos(p) for x, p in zip(b.rabi, b.azimuth)]
    matched("modulation", signed_a, signed_b, 1 / s, floor=1e-6 * max(a.rabi))
    return "modulated"


def check_sequence(ctx, case):
    base, s = case["base"], case["factor"]
    kw = dict(base["kw"])
    kw["duration"] *= s
    r = ctx.run([conv.factory_step(base, "a"), conv.factory_step(dict(base, kw=kw), "b")])
    a = gen.expect_sequence(fail, r[0], "a predefined sequence")
    b = gen.expect_sequence(fail, r[1], "a predefined sequence in another time unit")
    matched("offsets", a.offsets, b.offsets, s, floor=1e-12 * a.duration)
    matched("duration", [a.duration], [b.duration], s)
    matched("rabi rotations", a.rabi, b.rabi, 1)
    matched("azimuthal angles", a.azimuth, b.azimuth, 1)
    matched("detuning rotations", a.detuning, b.detuning, 1)
    return base["scheme"]


COMPONENTS = [
    Component("conversion", check_convert,
              "realisable sequences converted at two time scales; non-trivial: at least one pulse",
              strategy=lambda ctx: with_factor(conv.convertible(ctx, 8), ctx), quick=3200),
    Component("long conversion", check_convert,
              "sequences of tens to hundreds of pulses converted at two time scales; non-trivial: all",
              strategy=lambda ctx: with_factor(conv.many(ctx, 300), ctx), quick=240),
    Component("refusal", check_convert,
              "spoiled sequences refused at both time scales; non-trivial: an independent rule finds them unrealisable",
              strategy=lambda ctx: with_factor(spoiled(ctx), ctx), quick=1600),
    Component("derived", check_derived,
              "derived quantities of arbitrary controls at two time scales; non-trivial: all",
              strategy=lambda ctx: with_factor(ctrl.control(ctx, names=False), ctx), quick=1600),
    Component("predefined controls", check_preset,
              "predefined controls at two time scales; non-trivial: all",
              strategy=lambda ctx: with_factor(presets.valid(ctx), ctx), quick=1200),
    Component("modulated gaussian", check_gaussian,
              "modulated Gaussian controls at two time scales; non-trivial: not on the edge of refusal",
              strategy=lambda ctx: with_factor(presets.gaussian(ctx), ctx), quick=800),
    Component("predefined sequences", check_sequence,
              "predefined sequences at two time scales; non-trivial: all",
              strategy=lambda ctx: with_factor(conv.predefined(ctx), ctx), quick=1200),
]
