import math

from hypothesis import strategies as st

from .. import gen, presets
from ..core import Component, fail

PI = math.pi
ASSUMPTIONS = [
    "next to a whole ratio of duration to minimum segment duration (1e-8) either count is accepted, likewise for the number of turns",
    "when the modulation vanishes on all segments (aliasing) only the identity is required",
]


def counts(kw):
    ratio = kw["duration"] / kw["minimum_segment_duration"]
    return {max(1, math.floor(ratio * (1 - 1e-8))), max(1, math.floor(ratio * (1 + 1e-8)))}


def check(ctx, kw):
    (result,) = ctx.run([{"op": "call", "fn": "new_modulated_gaussian_control", "kw": kw}])
    control = gen.expect_control(fail, result, "a modulated Gaussian control with valid parameters")
    T, rate, f = kw["duration"], kw["maximum_rabi_rate"], kw["modulation_frequency"]
    n = len(control.durations)
    if n not in counts(kw):
        fail("wrong number of segments", got=n, expected=sorted(counts(kw)))
    for i, d in enumerate(control.durations):
        if not gen.close(d, T / n, 1e-9):
            fail("a segment does not have the common duration", segment=i, got=d, expected=T / n)
        if d < kw["minimum_segment_duration"] * (1 - 1e-8):
            fail("a segment is shorter than the minimum", segment=i, got=d)
    if not gen.close(math.fsum(control.durations), T, 1e-9):
        fail("wrong total duration", got=math.fsum(control.durations), expected=T)
    if any(d != 0 for d in control.detuning):
        fail("the control has a detuning")
    for i, (r, a) in enumerate(zip(control.rabi, control.azimuth)):
        if not abs(r * math.sin(a)) <= 1e-9 * rate:
            fail("a segment does not drive along the x axis", segment=i, azimuth=a)
    signed = [r * math.cos(a) for r, a in zip(control.rabi, control.azimuth)]
    reference = presets.gaussian_reference(kw, n)
    top = max(abs(v) for v in reference)
    total = math.fsum(s * d for s, d in zip(signed, control.durations))
    length = math.fsum(abs(s) * d for s, d in zip(signed, control.durations))
    if f == 0:
        turns = total / (2 * PI)
        if not (abs(turns - round(turns)) <= 1e-9 * max(1.0, turns) and round(turns) >= 1):
            fail("the control is not an identity gate", turns=turns)
        most = rate * T / n * math.fsum(v / top for v in reference) / (2 * PI)
        allowed = {max(1, math.floor(most * (1 - 1e-9))), max(1, math.floor(most * (1 + 1e-9)))}
        if round(turns) not in allowed:
            fail("not the largest full number of turns", got=turns, expected=sorted(allowed))
        peak = max(signed)
        # discretisation may leave slightly less than a turn at the maximum rate
        if peak > rate * max(1.0, 1.0 / most) * (1 + 1e-9):
            fail("the maximum Rabi rate is exceeded", got=peak, maximum=rate)
        for i, (s, v) in enumerate(zip(signed, reference)):
            if not gen.close(s, peak * v / top, 1e-7, 1e-9 * peak):
                fail("the shape is not Gaussian", segment=i, got=s, expected=peak * v / top)
        return "zero frequency, %s" % ("one turn" if round(turns) == 1 else "many turns")
    noise = 1e-15 * abs(2 * PI * f * T) / top if top > 0 else math.inf
    if not abs(total) <= (1e-9 + 100 * noise) * max(length, 1e-300):
        if not (n == 1 or noise > 1e-6) or not abs(total) <= 1e-6:
            fail("the control is not an identity gate", rotation=total, total_drive=length)
    if n == 1:
        if max(control.rabi) > 0:
            fail("a single segment at the zero of the modulation drives the qubit")
        return "single segment"
    if top < 1e-4 * min(1.0, abs(2 * PI * f * T)):
        return "aliased"
    if not gen.close(max(control.rabi), rate, 1e-6 + 100 * noise):
        fail("the largest Rabi rate is not the maximum", got=max(control.rabi), expected=rate)
    for i, (s, v) in enumerate(zip(signed, reference)):
        if not abs(s - rate * v / top) <= (1e-7 + 1000 * noise) * rate:
            fail("the shape is not a modulated Gaussian", segment=i, got=s, expected=rate * v / top)
    return "modulated"


@st.composite
def many(draw, ctx):
    kw = draw(presets.gaussian(ctx, 120).filter(lambda kw: isinstance(kw["duration"], float)))
    kw["minimum_segment_duration"] = kw["duration"] / draw(gen.log_uniform(200.0, 3e4))
    return kw


@st.composite
def aliased(draw, ctx):
    """Few segments and frequencies whose sine vanishes at many midpoints."""
    kw = draw(presets.gaussian(ctx, 12))
    n = max(counts(kw))
    kw["modulation_frequency"] = draw(st.integers(1, 12)) * n / kw["duration"] / draw(st.sampled_from([1, 2, 4]))
    if draw(st.booleans()):
        kw["modulation_frequency"] *= -1
    return kw


@st.composite
def refused(draw, ctx):
    kw = draw(presets.gaussian(ctx))
    kind = draw(st.sampled_from(["rate", "minimum", "duration", "order", "turn"]))
    bad = draw(st.one_of(st.sampled_from([0.0, 0, -1.0, float("nan")]), gen.log_uniform(1e-9, 1e6).map(lambda v: -v)))
    if kind == "rate":
        kw["maximum_rabi_rate"] = bad
    elif kind == "minimum":
        kw["minimum_segment_duration"] = bad
    elif kind == "duration":
        kw["duration"] = bad
        if draw(st.booleans()) and bad < 0:
            kw["minimum_segment_duration"] = bad * 2  # still shorter than the duration
    elif kind == "order":
        kw["minimum_segment_duration"] = kw["duration"] * draw(
            st.one_of(st.just(1.0), gen.log_uniform(1e-6, 1e3).map(lambda v: 1 + v))
        )
    else:
        kw["maximum_rabi_rate"] = presets.GAUSSIAN_LIMIT / kw["duration"] * draw(
            st.one_of(st.floats(0.01, 0.999), gen.log_uniform(1e-9, 0.5).map(lambda v: 1 - v))
        )
    return {"kw": kw, "kind": kind}


def check_refuse(ctx, case):
    (result,) = ctx.run([{"op": "call", "fn": "new_modulated_gaussian_control", "kw": case["kw"]}])
    gen.expect_refusal(fail, result, "a modulated Gaussian control with bad limits (%s)" % case["kind"])
    return case["kind"]


COMPONENTS = [
    Component("controls", check,
              "durations, minimum segments (whole and fractional ratios), rates from just enough to ample, frequencies of either sign or zero; non-trivial: all",
              strategy=lambda ctx: presets.gaussian(ctx, 120 if ctx.tier == "quick" else 1500), quick=6400),
    Component("many segments", check,
              "hundreds to tens of thousands of segments; non-trivial: all",
              strategy=many, quick=96, thorough=480),
    Component("aliased", check,
              "frequencies commensurate with few segments; non-trivial: all",
              strategy=aliased, quick=1600),
    Component("refused", check_refuse,
              "one limit out of range; non-trivial: all",
              strategy=refused, quick=3200),
]
