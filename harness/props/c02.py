from .. import conv, gen
from ..core import Component, fail
from .c01 import predefined, realise

ASSUMPTIONS = ["times are compared to 1e-13 of the sequence duration, times one plus a tenth of the number of pulses"]


def compare(case, control):
    T = case["T"]
    tolerance = conv.resolution(case)
    segments = conv.walk(control)
    total = segments[-1][1] if segments else 0.0
    if abs(total - T) > tolerance:
        fail("the control does not last as long as the sequence", got=total, expected=T)
    driven = [s for s in segments if s[2] != 0 or s[4] != 0]
    expected = conv.expected_pulses(case)
    if len(driven) != len(expected):
        fail("the number of driven segments differs from the number of non-null pulses",
             driven=len(driven), pulses=len(expected))
    for index, (got, want) in enumerate(zip(driven, expected)):
        if abs((got[0] + got[1]) / 2 - (want[0] + want[1]) / 2) > tolerance:
            fail("a pulse is not centred where it should be", pulse=index,
                 got=[got[0], got[1]], expected=[want[0], want[1]])
        if abs(got[0] - want[0]) > tolerance or abs(got[1] - want[1]) > tolerance:
            fail("a pulse does not start and end where it should", pulse=index,
                 got=[got[0], got[1]], expected=[want[0], want[1]])
        if got[0] < -tolerance or got[1] > T + tolerance:
            fail("a pulse lies outside the sequence", pulse=index)


def tag(case):
    if not case["offsets"]:
        return False
    at = [case["offsets"][0] == 0, case["offsets"][-1] == case["T"]]
    touching = any(abs(g - case["m"]) < 1e-12 * case["T"] for g in conv.all_gaps(case))
    return "start %d end %d%s" % (at[0], at[1], " touching" if touching else "")


def check(ctx, case):
    _, result = ctx.run(conv.both(case))
    compare(case, gen.expect_control(fail, result, "the conversion of a realisable sequence"))
    return tag(case)


def check_predefined(ctx, case):
    full, control = realise(ctx, case)
    compare(full, control)
    return case["scheme"] if full["offsets"] else False


COMPONENTS = [
    Component(
        "layouts",
        check,
        "sequences laid out pulse by pulse, converted; non-trivial: at least one pulse",
        strategy=lambda ctx: conv.convertible(ctx, 10 if ctx.tier == "quick" else 40),
        quick=6400,
    ),
    Component(
        "dense",
        check,
        "pulses whose widths and distances are all about the minimum segment duration; non-trivial: all",
        strategy=lambda ctx: conv.dense(ctx, 6 if ctx.tier == "quick" else 20),
        quick=1600,
    ),
    Component(
        "integers",
        check,
        "sequences and limits given as integers; non-trivial: all",
        strategy=lambda ctx: conv.integral(ctx),
        quick=800,
    ),
    Component(
        "predefined",
        check_predefined,
        "predefined sequences converted within limits that fit; non-trivial: at least one pulse",
        strategy=lambda ctx: predefined(ctx),
        quick=1600,
    ),
    Component(
        "long",
        check,
        "sequences of tens to hundreds of pulses; non-trivial: all",
        strategy=lambda ctx: conv.many(ctx, 400 if ctx.tier == "quick" else 2000),
        quick=400,
    ),
]
