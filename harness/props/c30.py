from hypothesis import strategies as st

from .. import conv, gen
from ..core import Component, fail
from .c04 import spoiled

ASSUMPTIONS = [
    "limits are relaxed by at least 1e-6 of their value or kept exactly, so that rounding does not decide",
    "at or below 1e-8 of a turn unit, rotations count as zero (see C01)",
]


@st.composite
def doubtful(draw, ctx):
    """
    A sequence whose tightest gap is about as long as the minimum: just above it,
    just below it, in the strip between, or overlapping by very little.
    """
    case = draw(conv.convertible(ctx, 6))
    gap = min(conv.all_gaps(case))
    T = case["T"]
    nudge = draw(
        st.one_of(
            st.just(0.0),
            gen.log_uniform(1e-12, 1e-4).map(lambda v: v),
            gen.log_uniform(1e-12, 1e-4).map(lambda v: -v),
        )
    )
    n = len(case["offsets"])
    if n >= 2 and draw(st.booleans()):
        i = draw(st.integers(0, n - 2))
        moved = case["offsets"][i + 1] - draw(gen.log_uniform(1e-12, 1e-5)) * T
        if moved > case["offsets"][i]:
            case["offsets"][i + 1] = moved
    else:
        case["m"] = max(0.0, gap + nudge * draw(st.sampled_from([T, max(gap, 0.0)])))
    case["pass_m"] = True
    return case


@st.composite
def strategy(draw, ctx):
    base = draw(st.one_of(doubtful(ctx), doubtful(ctx), spoiled(ctx), conv.convertible(ctx, 8), conv.dense(ctx)))
    more = st.one_of(st.just(1.0), gen.log_uniform(1.000001, 1000.0), st.sampled_from([2.0, 10.0, 1e6, 1e12, 1e20]))
    return {
        "base": base,
        "R": draw(more),
        "D": draw(more),
        "m": draw(st.one_of(st.just(1.0), st.just(0.0), st.floats(0.0, 0.999999), st.floats(0.7, 0.999999))),
        "drop": draw(st.lists(st.integers(0, 30), max_size=3)),
        "longer": draw(st.one_of(st.just(0.0), st.just(0.0), gen.log_uniform(1e-3, 10.0))),
    }


def relax(case):
    base = case["base"]
    result = dict(base)
    result["R"] = base["R"] * case["R"]
    result["D"] = base["D"] * case["D"]
    result["m"] = base["m"] * case["m"]
    result["pass_m"] = True
    keep = [i for i in range(len(base["offsets"])) if i not in case["drop"]]
    for key in ("offsets", "rabi", "az", "det"):
        result[key] = [base[key][i] for i in keep]
    if case["longer"] and not (base["offsets"] and base["offsets"][-1] == base["T"]):
        result["T"] = base["T"] * (1 + case["longer"])
    return result


def driven(control):
    return [s for s in conv.walk(control) if s[2] or s[4]]


def check(ctx, case):
    base, easier = case["base"], relax(case)
    _, first, _, second = ctx.run(
        [
            *conv.both(dict(base, pass_m=True), "1"),
            *conv.both(easier, "2"),
        ]
    )
    if "exc" in first:
        if not first["exc"]["argument_error"]:
            fail("the conversion failed with another error", error=first["exc"]["type"])
        return False
    a = gen.expect_control(fail, first, "the conversion")
    b = gen.expect_control(fail, second, "the conversion under relaxed limits")
    if easier["R"] == base["R"] and easier["D"] == base["D"] and easier["m"] == base["m"]:
        # only fewer pulses, or more idle time at the end: the others stay as they are
        old, new = driven(a), driven(b)
        # accepted overlaps of 1e-8 of the pulses add up
        near = 1e-11 * base["T"] * (1 + len(base["offsets"])) + 1e-7 * sum(s[1] - s[0] for s in old)
        for segment in new:
            if not any(
                abs(segment[0] - other[0]) <= near
                and abs(segment[1] - other[1]) <= near
                and gen.close(segment[2], other[2], 1e-6)
                and gen.close(segment[3], other[3], 1e-9, 1e-9)
                and gen.close(segment[4], other[4], 1e-6)
                for other in old
            ):
                fail("a pulse changed because another one was left out or idle time was added", segment=segment)
        dropped = [
            i for i in range(len(base["offsets"]))
            if i in case["drop"] and (base["rabi"][i] or base["det"][i])
        ]
        if len(new) != len(old) - len(dropped):
            fail("wrong number of pulses", got=len(new), before=len(old), dropped=len(dropped))
        if not base["offsets"]:
            return False
        return "same limits" + (" fewer pulses" if dropped else "")
    return "relaxed" if base["offsets"] else False


COMPONENTS = [
    Component(
        "relaxed",
        check,
        "sequences with gaps around the minimum, converted and converted again under relaxed demands; non-trivial: the first conversion succeeded and has a pulse",
        strategy=strategy,
        quick=12000,
    ),
]
