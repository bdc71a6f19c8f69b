from hypothesis import strategies as st

from .. import conv, gen
from ..core import Component, fail
from .c04 import problem, spoiled

ASSUMPTIONS = ["times are compared to 1e-12 of the duration, times one plus a tenth of the number of pulses; rates on the scale of the pulse width"]

KINDS = ["reversal", "azimuth", "mirror", "rotations"]


@st.composite
def strategy(draw, ctx, bad=False, long=False):
    base = draw(spoiled(ctx) if bad else conv.many(ctx, 200) if long else conv.convertible(ctx, 8))
    # rotations below 1e-8 count as zero, so none is scaled down to that
    smallest = min([abs(v) for v in base["rabi"] + base["det"] if v] + [1.0])
    return {
        "base": base,
        "kind": draw(st.sampled_from(KINDS)),
        "shift": draw(gen.azimuth(ctx)),
        "factor": draw(st.one_of(st.sampled_from([0.5, 2.0, 10.0]), gen.log_uniform(1e-2, 1e3)).map(
            lambda f: max(f, min(1.0, 2e-8 / smallest)))),
    }


def image(case):
    """The transformed sequence and limits."""
    base = case["base"]
    result = dict(base)
    T = base["T"]
    if case["kind"] == "reversal":
        result["offsets"] = [
            T if o == 0 else 0.0 if o == T else T - o for o in reversed(base["offsets"])
        ]
        for key in ("rabi", "az", "det"):
            result[key] = base[key][::-1]
    elif case["kind"] == "azimuth":
        result["az"] = [a + case["shift"] for a in base["az"]]
    elif case["kind"] == "mirror":
        result["det"] = [-d for d in base["det"]]
    else:
        f = case["factor"]
        result["rabi"] = [v * f for v in base["rabi"]]
        result["det"] = [v * f for v in base["det"]]
        result["R"] = base["R"] * f
        result["D"] = base["D"] * f
    return result


def pulses(control):
    return [s for s in conv.walk(control) if s[2] or s[4]]


def check(ctx, case):
    base, other = case["base"], image(case)
    _, first, _, second = ctx.run(
        [
            *conv.both(base, "1"),
            *conv.both(other, "2"),
        ]
    )
    if "spoiled" in base:
        if problem(base) is None or problem(other) is None:
            return False
        for result in (first, second):
            gen.expect_refusal(fail, result, "a sequence that cannot be realised, or its image,")
        return "refused " + case["kind"]
    a = gen.expect_control(fail, first, "the conversion")
    b = gen.expect_control(fail, second, "the conversion of the transformed sequence")
    T = base["T"]
    near = 10 * conv.resolution(base)
    if abs(sum(a.durations) - sum(b.durations)) > near:
        fail("the duration differs", one=sum(a.durations), other=sum(b.durations))
    one, two = pulses(a), pulses(b)
    if len(one) != len(two):
        fail("the number of pulses differs", one=len(one), other=len(two))
    if case["kind"] == "reversal":
        two = [(T - e, T - s, r, z, d) for s, e, r, z, d in reversed(two)]
    scale = case["factor"] if case["kind"] == "rotations" else 1.0
    sign = -1.0 if case["kind"] == "mirror" else 1.0
    shift = case["shift"] if case["kind"] == "azimuth" else 0.0
    for i, (p, q) in enumerate(zip(one, two)):
        if abs(p[0] - q[0]) > near or abs(p[1] - q[1]) > near:
            fail("a pulse moved", kind=case["kind"], pulse=i, one=p, other=q)
        slack = 1e-9 + 64 * conv.EPS * T / max(p[1] - p[0], 1e-300)
        if not gen.close(p[2] * scale, q[2], slack):
            fail("a Rabi rate differs", kind=case["kind"], pulse=i, one=p, other=q)
        if not gen.close(p[4] * scale * sign, q[4], slack):
            fail("a detuning differs", kind=case["kind"], pulse=i, one=p, other=q)
        if p[2] and not gen.same_angle(p[3] + shift, q[3], 1e-9):
            fail("an azimuth differs", kind=case["kind"], pulse=i, one=p, other=q)
    return case["kind"] if base["offsets"] else False


COMPONENTS = [
    Component("realisable", check,
              "realisable sequences and their images under the symmetries; non-trivial: at least one pulse",
              strategy=strategy, quick=5600),
    Component("long", check,
              "sequences of tens to hundreds of pulses and their images; non-trivial: all",
              strategy=lambda ctx: strategy(ctx, long=True), quick=240),
    Component("spoiled", check,
              "spoiled sequences and their images; non-trivial: an independent rule finds both unrealisable",
              strategy=lambda ctx: strategy(ctx, True), quick=3200),
]
