from hypothesis import strategies as st

from .. import conv, gen, presets
from ..core import Component, fail

PI = presets.PI


def ask(scheme, duration, framed, **kw):
    return {"op": "call", "fn": "new_%s_sequence" % scheme,
            "kw": dict(kw, duration=duration, pre_post_rotation=framed)}


@st.composite
def sequences(draw, ctx):
    """Pairs of requests for the same pulses (or the same times)."""
    T = draw(conv.times(ctx))
    framed = draw(st.booleans())
    kind = draw(st.sampled_from(
        ["one pulse", "cpmg", "uhrig", "rademacher", "carr-purcell walsh", "concatenated walsh", "quadratic one"]))
    order = draw(st.integers(1, 10))
    count = draw(gen.count(ctx, 1, 1000, strict=True))
    times_only = False
    echo = ask("spin_echo", T, framed)
    if kind == "one pulse":
        pair = [echo, draw(st.sampled_from([
            ask("carr_purcell", T, framed, offset_count=1),
            ask("periodic", T, framed, offset_count=1),
            ask("walsh", T, framed, paley_order=1),
        ]))]
    elif kind == "cpmg":
        times_only = True
        pair = [ask(s, T, framed, offset_count=count) for s in ("cpmg", "carr_purcell")]
    elif kind == "uhrig":
        n = draw(st.sampled_from([1, 2]))
        pair = [ask(s, T, framed, offset_count=n) for s in ("uhrig", "cpmg")]
    elif kind == "rademacher":
        order = min(order, 9)
        pair = [ask("walsh", T, framed, paley_order=2 ** order),
                ask("periodic", T, framed, offset_count=2 ** (order + 1) - 1)]
    elif kind == "carr-purcell walsh":
        pair = [ask("walsh", T, framed, paley_order=3 * 2 ** (order - 1)),
                ask("carr_purcell", T, framed, offset_count=2 ** order)]
    elif kind == "concatenated walsh":
        pair = [ask("walsh", T, framed, paley_order=2 ** order - 1),
                ask("x_concatenated", T, framed, concatenation_order=order)]
    else:
        outer = draw(st.integers(1, 20))
        times_only = "outer"
        pair = [ask("quadratic", T, False, inner_offset_count=draw(st.integers(1, 12)), outer_offset_count=outer),
                ask("uhrig", T, False, offset_count=outer)]
    return {"kind": kind, "pair": pair, "times_only": times_only, "T": T}


def check_sequences(ctx, case):
    r = ctx.run(case["pair"])
    one = gen.expect_sequence(fail, r[0], "a predefined sequence").pulses
    two = gen.expect_sequence(fail, r[1], "a predefined sequence").pulses
    if case["times_only"] == "outer":
        one = [p for p in one if p[1]]
    if len(one) != len(two):
        fail("the number of pulses differs", one=len(one), other=len(two))
    for i, (p, q) in enumerate(zip(one, two)):
        if abs(p[0] - q[0]) > 1e-11 * case["T"]:
            fail("a pulse is at another time", pulse=i, one=p, other=q)
        if not gen.close(p[1], q[1], 1e-9) or not gen.close(p[3], q[3], 1e-9):
            fail("a pulse rotates differently", pulse=i, one=p, other=q)
        if not case["times_only"] and not gen.same_angle(p[2], q[2], 1e-9):
            fail("a pulse is about another axis", pulse=i, one=p, other=q)
    return case["kind"]


# (scheme, first and last segment) of which the second has the same segments
PARTS = [
    ("bb1", 0, 1, "primitive", 0, 1),
    ("sk1", 0, 1, "primitive", 0, 1),
    ("corpse_in_bb1", 0, 3, "corpse", 0, 3),
    ("corpse_in_sk1", 0, 3, "corpse", 0, 3),
    ("corpse_in_bb1", 3, 6, "bb1", 1, 4),
    ("corpse_in_sk1", 3, 5, "sk1", 1, 3),
]


@st.composite
def controls(draw, ctx):
    part = draw(st.sampled_from(PARTS + ["scrofulous", "scrofulous"]))
    scheme = "scrofulous" if part == "scrofulous" else "bb1"
    return {
        "part": part if part == "scrofulous" else list(part),
        "kw": {
            "rabi_rotation": draw(presets.angles(ctx, scheme)),
            "maximum_rabi_rate": draw(presets.rates(ctx)),
            "azimuthal_angle": draw(gen.azimuth(ctx)),
        },
    }


def same_segments(one, two):
    if len(one) != len(two):
        fail("the number of segments differs", one=len(one), other=len(two))
    for i, (p, q) in enumerate(zip(one, two)):
        if not gen.close(p[0], q[0], 1e-9) or not gen.close(p[2], q[2], 1e-9):
            fail("a segment has another rate", segment=i, one=p, other=q)
        if not gen.close(p[0] * p[3], q[0] * q[3], 1e-9, 1e-9):
            fail("a segment has another duration", segment=i, one=p, other=q)
        if not gen.same_angle(p[1], q[1], 1e-9):
            fail("a segment has another azimuth", segment=i, one=p, other=q)


def check_controls(ctx, case):
    call = lambda scheme, **kw: {"op": "call", "fn": "new_%s_control" % scheme, "kw": dict(case["kw"], **kw)}
    if case["part"] != "scrofulous":
        a, a0, a1, b, b0, b1 = case["part"]
        r = ctx.run([call(a), call(b)])
        one = gen.expect_control(fail, r[0], "a predefined control").segments
        two = gen.expect_control(fail, r[1], "a predefined control").segments
        same_segments(one[a0:a1], two[b0:b1])
        return "%s has %s" % (a, b)
    # every SCROFULOUS pulse is replaced by the CORPSE control of the same rotation
    r = ctx.run([call("scrofulous"), call("corpse_in_scrofulous")])
    outer = gen.expect_control(fail, r[0], "a predefined control").segments
    whole = gen.expect_control(fail, r[1], "a predefined control").segments
    parts = ctx.run(
        [call("corpse", rabi_rotation=s[0] * s[3], azimuthal_angle=s[1]) for s in outer]
    )
    wanted = []
    for part in parts:
        wanted += gen.expect_control(fail, part, "a CORPSE control").segments
    same_segments(whole, wanted)
    return "corpse_in_scrofulous is corpse in scrofulous"


COMPONENTS = [
    Component("sequences", check_sequences,
              "pairs of requests for the same sequence from two schemes; non-trivial: all",
              strategy=sequences, quick=4000),
    Component("controls", check_controls,
              "composite controls and the simpler controls they contain; non-trivial: all",
              strategy=controls, quick=3200),
]
