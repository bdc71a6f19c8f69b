from hypothesis import strategies as st

from .. import conv, gen, schemes
from ..core import Component, fail

ASSUMPTIONS = ["counts are integers or integer-valued floats; finite parameters and NaN only"]


@st.composite
def accepted(draw, ctx):
    case = draw(schemes.request(ctx, names=False))
    kw = case["kw"]
    case["types"] = {}
    for key in schemes.COUNTS[case["scheme"]]:
        case["types"][key] = draw(st.sampled_from(["int", "int", "float", "int64", "float64"]))
        if key == "paley_order" and draw(st.integers(0, 5)) == 0:
            kw[key] = draw(st.sampled_from([1, 2, 1023, 1024, 1025, 1999, 2000]))
    if draw(st.integers(0, 3)) == 0:
        kw["duration"] = draw(st.integers(1, 10 ** 6))
    framing = draw(st.sampled_from([None, False, True]))
    if framing is not None:
        kw["pre_post_rotation"] = framing
    name = draw(gen.name())
    if name is not None or draw(st.booleans()):
        kw["name"] = name
    case["positional"] = draw(st.booleans())
    return case


def typed(value, kind):
    if kind == "float":
        return float(value)
    if kind in ("int64", "float64"):
        return {"$np": [kind, value]}
    return value


def call(case):
    kw = {k: typed(v, case.get("types", {}).get(k)) for k, v in case["kw"].items()}
    step = {"op": "call", "fn": "new_%s_sequence" % case["scheme"], "kw": kw}
    if case.get("positional"):
        order = ["duration"] + schemes.COUNTS[case["scheme"]]
        step["args"] = [kw.pop(k) for k in order]
        if "pre_post_rotation" in kw:
            step["args"].append(kw.pop("pre_post_rotation"))
    return step


def check_accept(ctx, case):
    (result,) = ctx.run([call(case)])
    sequence = gen.expect_sequence(fail, result, "a predefined sequence with valid parameters")
    if not gen.close(sequence.duration, case["kw"]["duration"], 1e-15):
        fail("the duration is not the requested one", got=sequence.duration, expected=case["kw"]["duration"])
    if sequence.name != case["kw"].get("name"):
        fail("the name is not carried", got=sequence.name, expected=case["kw"].get("name"))
    inner = len(schemes.pulses(case["scheme"], case["kw"]))
    wanted = inner + (2 if case["kw"].get("pre_post_rotation") else 0)
    if len(sequence.offsets) != wanted:
        fail("wrong number of pulses", got=len(sequence.offsets), expected=wanted)
    return "%s %s" % (case["scheme"], "+".join(sorted(case["types"].values())))


@st.composite
def refused(draw, ctx):
    case = draw(schemes.request(ctx, names=False))
    keys = schemes.COUNTS[case["scheme"]]
    target = draw(st.sampled_from(["duration"] + keys * 2))
    if target == "duration":
        value = draw(
            st.one_of(st.sampled_from([0.0, 0, -0.0, -1, -1.0, float("nan")]),
                      gen.log_uniform(1e-12, 1e9).map(lambda v: -v))
        )
    else:
        options = [
            st.sampled_from([0, -1, 0.0, -0.0, 0.5, 0.999999, -2, -7.0, float("nan")]),
            st.integers(-1000, 0),
            st.floats(-100.0, 0.99),
        ]
        if target == "paley_order":
            options.append(st.sampled_from([2001, 2001.0, 2047, 2048, 2049, 4096, 10 ** 6, 2000.5]))
            options.append(st.integers(2001, 10 ** 9))
        value = draw(st.one_of(options))
    case["kw"][target] = value
    case["target"] = target
    if draw(st.booleans()):
        case["kw"]["pre_post_rotation"] = True
    return case


def check_refuse(ctx, case):
    (result,) = ctx.run([call(case)])
    gen.expect_refusal(fail, result, "a predefined sequence with a bad %s" % case["target"])
    return "%s %s" % (case["scheme"], case["target"])


COMPONENTS = [
    Component("accepted", check_accept,
              "every scheme with valid parameters of all number types; non-trivial: all",
              strategy=accepted, quick=6400),
    Component("refused", check_refuse,
              "every scheme with one bad parameter; non-trivial: all",
              strategy=refused, quick=6400),
]
