from .. import conv, gen
from ..core import Component, fail
from .c01 import predefined, realise

ASSUMPTIONS = [
    "a rate may exceed its maximum by the rounding of the pulse's start and end times",
]


def compare(case, control):
    T, m = case["T"], case["m"]
    for index, (rabi, az, det, duration) in enumerate(control.segments):
        slack = 1 + conv.slack(T, duration)
        if rabi > case["R"] * slack:
            fail("a segment exceeds the maximum Rabi rate", segment=index, got=rabi, limit=case["R"])
        if abs(det) > case["D"] * slack:
            fail("a segment exceeds the maximum detuning rate", segment=index, got=det, limit=case["D"])
        # with a minimum of zero, rounding may leave idle slivers between touching pulses
        if duration < m * (1 - 1e-4) - 1e-11 * T:
            fail("a segment is shorter than the minimum segment duration",
                 segment=index, got=duration, minimum=m)
    driven = [s for s in control.segments if s[0] != 0 or s[2] != 0]
    expected = conv.expected_pulses(case)
    if len(driven) != len(expected):
        fail("a pulse is not a single segment", driven=len(driven), pulses=len(expected))
    for index, (got, want) in enumerate(zip(driven, expected)):
        width = want[1] - want[0]
        exact = max(want[2] / case["R"] if want[2] else abs(want[4]) / case["D"], m)
        if abs(got[3] - exact) > 1e-9 * exact + 16 * conv.EPS * T:
            fail("a pulse does not have the width that the limits ask for",
                 pulse=index, got=got[3], expected=exact)


def tag(case):
    if not case["offsets"]:
        return False
    stretched = natural = False
    for rabi, det in zip(case["rabi"], case["det"]):
        if rabi or det:
            width = rabi / case["R"] if rabi else abs(det) / case["D"]
            if width < case["m"]:
                stretched = True
            else:
                natural = True
    if not (stretched or natural):
        return False
    return "minimum %s: %s%s" % (
        "set" if case["m"] else "zero",
        "natural " if natural else "",
        "stretched" if stretched else "",
    )


def check(ctx, case):
    _, result = ctx.run(conv.both(case))
    compare(case, gen.expect_control(fail, result, "the conversion of a realisable sequence"))
    return tag(case)


def check_predefined(ctx, case):
    full, control = realise(ctx, case)
    compare(full, control)
    return case["scheme"] if full["offsets"] else False


COMPONENTS = [
    Component(
        "layouts",
        check,
        "sequences laid out pulse by pulse with rates and a minimum that fit, converted; non-trivial: at least one non-null pulse",
        strategy=lambda ctx: conv.convertible(ctx, 10 if ctx.tier == "quick" else 40),
        quick=6400,
    ),
    Component(
        "dense",
        check,
        "pulses whose widths and distances are all about the minimum segment duration; non-trivial: all",
        strategy=lambda ctx: conv.dense(ctx, 6 if ctx.tier == "quick" else 20),
        quick=1600,
    ),
    Component(
        "integers",
        check,
        "sequences and limits given as integers; non-trivial: all",
        strategy=lambda ctx: conv.integral(ctx),
        quick=800,
    ),
    Component(
        "predefined",
        check_predefined,
        "predefined sequences converted within limits that fit; non-trivial: at least one pulse",
        strategy=lambda ctx: predefined(ctx),
        quick=1600,
    ),
    Component(
        "long",
        check,
        "sequences of tens to hundreds of pulses; non-trivial: all",
        strategy=lambda ctx: conv.many(ctx, 400 if ctx.tier == "quick" else 2000),
        quick=400,
    ),
]
