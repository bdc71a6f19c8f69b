import math

from hypothesis import strategies as st

from .. import conv, ctrl, gen
from ..core import Component, fail

PI = math.pi


@st.composite
def accepted(draw, ctx):
    case = draw(ctrl.sequence(ctx, 14))
    mode = draw(st.sampled_from(["as is", "as is", "as is", "integers", "extreme", "long"]))
    n = len(case["offsets"])
    if mode == "integers":
        case["T"] = draw(st.integers(1, 10 ** 6))
        for key, low, high in (("offsets", 0, case["T"]), ("rabi", -9, 9), ("az", -9, 9), ("det", -9, 9)):
            case[key] = draw(st.lists(st.integers(low, high), min_size=n, max_size=n))
        case["kind"] = draw(st.sampled_from(["ints", "intarray"]))
    elif mode == "extreme" and n:
        i = draw(st.integers(0, n - 1))
        wild = st.sampled_from([1e300, -1e300, 5e-324, -1e-300, 1e-30, -0.0, 1e15])
        for key in ("rabi", "az", "det"):
            case[key][i] = draw(wild)
        case["offsets"][i] = draw(st.sampled_from([5e-324, case["T"], 0.0, math.nextafter(case["T"], 0)]))
    elif mode == "long":
        n = draw(st.integers(100, 1500))
        k = draw(st.integers(1, 97))
        case["offsets"] = [case["T"] * ((i * k) % n) / n for i in range(n)]
        case["rabi"] = [float((i * k) % 11) for i in range(n)]
        case["az"] = [float((i * 7) % 13) - 6 for i in range(n)]
        case["det"] = [float((i * 5) % 7) - 3 for i in range(n)]
    case["mode"] = mode
    case["positional"] = draw(st.booleans())
    return case


def build_step(case):
    step = conv.sequence_step(case, name=case["name"])
    if case.get("positional"):
        step["args"] = list(step["kw"].values())
        step["kw"] = {}
    elif case["name"] is None:
        del step["kw"]["name"]
    return step


def check_accept(ctx, case):
    (result,) = ctx.run([build_step(case)])
    sequence = gen.expect_sequence(fail, result, "a valid sequence")
    if sequence.duration != case["T"]:
        fail("the duration is not kept", got=sequence.duration, expected=case["T"])
    for key, got in (
        ("offsets", sequence.offsets), ("rabi", sequence.rabi), ("az", sequence.azimuth), ("det", sequence.detuning)
    ):
        if len(got) != len(case[key]):
            fail("a field has another length", field=key, got=len(got), expected=len(case[key]))
        for i, (a, b) in enumerate(zip(got, case[key])):
            if a != b:
                fail("a value is not stored exactly", field=key, index=i, got=a, expected=b)
    if sequence.name != case["name"]:
        fail("the name is not kept", got=sequence.name, expected=case["name"])
    return case["mode"] + (" empty" if not case["offsets"] else "")


@st.composite
def defective(draw, ctx):
    case = draw(ctrl.sequence(ctx, 10))
    n = len(case["offsets"])
    kinds = ["duration", "length", "length"] + (["offset"] * 3 if n else [])
    kind = draw(st.sampled_from(kinds))
    if kind == "duration":
        case["T"] = draw(
            st.one_of(st.sampled_from([0.0, -0.0, 0, -1.0, float("nan"), -5e-324]),
                      gen.log_uniform(1e-9, 1e6).map(lambda v: -v))
        )
        if draw(st.booleans()):
            for key in ("offsets", "rabi", "az", "det"):
                case[key] = []
    elif kind == "offset":
        i = draw(st.integers(0, n - 1))
        T = case["T"]
        case["offsets"][i] = draw(
            st.one_of(
                st.sampled_from([-1e-300, -T, 2 * T, math.nextafter(T, math.inf), -5e-324, float("nan"),
                                 float("inf"), float("-inf")]),
                gen.log_uniform(1e-12, 1e3).map(lambda v: -v * T),
                gen.log_uniform(1e-12, 1e3).map(lambda v: T * (1 + v)),
            )
        )
    else:
        key = draw(st.sampled_from(["offsets", "rabi", "az", "det"]))
        change = draw(st.sampled_from(["longer", "longer", "shorter", "empty", "one", "double"]))
        current = list(case[key])
        filler = draw(st.sampled_from([0.0, 1.0])) if key != "offsets" else draw(st.sampled_from([0.0, case["T"]]))
        if change == "longer" or n == 0:
            current = current + [filler] * draw(st.integers(1, 3))
        elif change == "shorter" or (change == "one" and n == 1):
            current = current[:-1]
        elif change == "one":
            current = current[:1]
        elif change == "empty":
            current = []
        else:
            current = current * 2
        case[key] = current
        if key != "offsets" and draw(st.integers(0, 3)) == 0:
            # another field has the same wrong length
            other = draw(st.sampled_from([k for k in ("rabi", "az", "det") if k != key]))
            case[other] = [0.5] * len(current)
        kind += " " + key
    case["defect"] = kind
    return case


def check_refuse(ctx, case):
    (result,) = ctx.run([conv.sequence_step(case, name=case["name"])])
    gen.expect_refusal(fail, result, "an invalid sequence (%s)" % case["defect"])
    return case["defect"]


COMPONENTS = [
    Component("accepted", check_accept,
              "valid sequences in all containers, sorted or not, empty, long, with integer and extreme values; non-trivial: all",
              strategy=accepted, quick=8000),
    Component("refused", check_refuse,
              "sequences with one defect (duration, offset or length) at any position; non-trivial: all",
              strategy=defective, quick=6400),
]
