import math

from hypothesis import strategies as st

from .. import gen, presets
from ..core import Component, fail

PI = math.pi
ASSUMPTIONS = [
    "only finite parameters (and NaN) are considered; discrete angles are given exactly, and wrong ones differ by at least 1e-4 relative",
]


@st.composite
def accepted(draw, ctx):
    case = draw(presets.valid(ctx, names=False))
    kw = case["kw"]
    scheme = case["scheme"]
    style = draw(st.sampled_from(["plain", "plain", "numpy", "integer", "edge"]))
    if style == "integer":
        kw["maximum_rabi_rate"] = draw(st.integers(1, 10 ** 7))
        if scheme in presets.CONTINUOUS:
            kw["rabi_rotation"] = draw(st.integers(1, 12))
        kw["azimuthal_angle"] = draw(st.integers(-7, 7))
    elif style == "edge" and scheme in presets.CONTINUOUS:
        kw["rabi_rotation"] = draw(
            st.sampled_from([4 * PI, 4 * PI * (1 - 1e-12), 1e-9, 2 * PI, 3 * PI, 1e-5])
        )
    if draw(st.integers(0, 3)) == 0:
        del kw["azimuthal_angle"]
    name = draw(gen.name())
    if name is not None or draw(st.booleans()):
        kw["name"] = name
    case["style"] = style
    return case


def encoded(case):
    kw = dict(case["kw"])
    if case.get("style") == "numpy":
        for key in ("maximum_rabi_rate", "rabi_rotation"):
            kw[key] = {"$np": ["float64", kw[key]]}
    return kw


def check_accept(ctx, case):
    (result,) = ctx.run([{"op": "call", "fn": case["fn"], "kw": encoded(case)}])
    control = gen.expect_control(fail, result, "a predefined control with valid parameters")
    if control.name != case["kw"].get("name"):
        fail("the name is not carried", got=control.name, expected=case["kw"].get("name"))
    for values in (control.rabi, control.azimuth, control.detuning, control.durations):
        if not all(isinstance(v, (int, float)) and math.isfinite(v) for v in values):
            fail("the control contains undefined values")
    if not all(d > 0 for d in control.durations):
        fail("the control has a segment without duration")
    return "%s %s" % (case["scheme"], case["style"])


@st.composite
def refused(draw, ctx):
    case = draw(presets.valid(ctx, names=False))
    scheme, kw = case["scheme"], case["kw"]
    negative = st.one_of(
        gen.log_uniform(1e-9, 1e9).map(lambda v: -v), st.sampled_from([-PI, -PI / 2, -PI / 4, -1.0, -1])
    )
    kinds = ["rate zero", "rate negative", "rate nan", "angle zero", "angle negative", "angle nan", "both negative"]
    limited = scheme in presets.CONTINUOUS and presets.CONTINUOUS[scheme] < 100
    if limited:
        kinds += ["angle large"] * 3
    if scheme in presets.DISCRETE:
        kinds += ["angle unsupported"] * 4
    kind = draw(st.sampled_from(kinds))
    if kind == "rate zero":
        kw["maximum_rabi_rate"] = draw(st.sampled_from([0.0, -0.0, 0]))
    elif kind == "rate negative":
        kw["maximum_rabi_rate"] = draw(negative)
    elif kind == "rate nan":
        kw["maximum_rabi_rate"] = float("nan")
    elif kind == "angle zero":
        kw["rabi_rotation"] = draw(st.sampled_from([0.0, -0.0, 0]))
    elif kind == "angle negative":
        kw["rabi_rotation"] = draw(st.one_of(negative, st.floats(-4 * PI, -1e-3)))
    elif kind == "angle nan":
        kw["rabi_rotation"] = float("nan")
    elif kind == "both negative":
        kw["rabi_rotation"] = draw(st.one_of(st.just(-kw["rabi_rotation"]), negative))
        kw["maximum_rabi_rate"] = -kw["maximum_rabi_rate"]
    elif kind == "angle large":
        kw["rabi_rotation"] = 4 * PI * draw(
            st.one_of(gen.log_uniform(1e-9, 1e3).map(lambda v: 1 + v), st.sampled_from([1.25, 2.0]))
        )
    else:
        wrong = draw(
            st.one_of(
                st.sampled_from([2 * PI, 3 * PI / 4, PI / 8, PI / 3, PI / 6, 3 * PI / 2, 4 * PI, 3.0, 0.5, 1.0,
                                 45.0, 90.0, 180.0, PI + 2 * PI]),
                st.floats(1e-3, 20.0),
                st.tuples(st.sampled_from([PI, PI / 2, PI / 4]), gen.log_uniform(1.01e-4, 0.2),
                          st.sampled_from([1, -1])).map(lambda p: p[0] * (1 + p[1] * p[2])),
            )
        )
        kw["rabi_rotation"] = wrong
    case["kind"] = kind
    return case


def check_refuse(ctx, case):
    if case["kind"] == "angle unsupported":
        if any(abs(case["kw"]["rabi_rotation"] / a - 1) < 1e-4 for a in presets.DISCRETE_ANGLES):
            return False
    (result,) = ctx.run([{"op": "call", "fn": case["fn"], "kw": case["kw"]}])
    gen.expect_refusal(fail, result, "a %s control with bad parameters (%s)" % (case["scheme"], case["kind"]))
    return "%s %s" % (case["scheme"], case["kind"])


COMPONENTS = [
    Component("accepted", check_accept,
              "every scheme with supported parameters of all number types and at the edges; non-trivial: all",
              strategy=accepted, quick=7200),
    Component("refused", check_refuse,
              "every scheme with one unsupported parameter; non-trivial: the parameter is clearly unsupported",
              strategy=refused, quick=7200),
]
