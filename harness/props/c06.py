from hypothesis import strategies as st

from .. import ctrl, gen
from ..core import Component, fail

FIELDS = [("durations", "durations"), ("rabi", "rabi_rates"), ("az", "azimuthal_angles"), ("det", "detunings")]


@st.composite
def accepted(draw, ctx):
    if draw(st.integers(0, 19)) == 0:
        case = draw(ctrl.long_control(ctx))
    else:
        case = draw(ctrl.control(ctx, most=12, spread=14))
    mode = draw(st.sampled_from(["as is", "as is", "integers", "float32", "extreme"]))
    if mode == "integers":
        n = min(len(case["durations"]), 30)
        ints = lambda low, high: draw(st.lists(st.integers(low, high), min_size=n, max_size=n))
        case["durations"] = ints(1, 10 ** 6)
        case["rabi"] = ints(0, 10 ** 6) if case["rabi"] is not None else None
        case["az"] = ints(-100, 100) if case["az"] is not None else None
        case["det"] = ints(-(10 ** 6), 10 ** 6) if case["det"] is not None else None
        case["kind"] = draw(st.sampled_from(["ints", "intarray"]))
    elif mode == "float32":
        # values that are exact in single precision
        n = min(len(case["durations"]), 30)
        dyadic = lambda low, high: [k / 64 for k in draw(st.lists(st.integers(low, high), min_size=n, max_size=n))]
        case["durations"] = dyadic(1, 10 ** 4)
        case["rabi"] = dyadic(0, 10 ** 4) if case["rabi"] is not None else None
        case["az"] = dyadic(-(10 ** 3), 10 ** 3) if case["az"] is not None else None
        case["det"] = dyadic(-(10 ** 4), 10 ** 4) if case["det"] is not None else None
        case["kind"] = "float32"
    elif mode == "extreme":
        tiny = st.sampled_from([1e-300, 5e-324, 1e-30, 1e300, 1e-9])
        i = draw(st.integers(0, len(case["durations"]) - 1))
        case["durations"] = list(case["durations"])
        case["durations"][i] = draw(tiny)
        if case["rabi"] is not None:
            case["rabi"] = list(case["rabi"])
            case["rabi"][i] = draw(st.one_of(tiny, st.sampled_from([0.0, -0.0])))
        if case["det"] is not None:
            case["det"] = list(case["det"])
            case["det"][i] = draw(tiny) * draw(st.sampled_from([1, -1]))
    case["explicit_none"] = draw(st.booleans())
    case["mode"] = mode
    case["positional"] = draw(st.booleans())
    return case


def build_step(case):
    step = ctrl.step(case)
    if case.get("positional"):
        kw = step["kw"]
        step["args"] = [
            kw.get(k) for k in ("durations", "rabi_rates", "azimuthal_angles", "detunings", "name")
        ]
        step["kw"] = {}
    return step


def check_accept(ctx, case):
    (result,) = ctx.run([build_step(case)])
    control = gen.expect_control(fail, result, "a valid control")
    want = ctrl.full(case)
    for key, got in (
        ("durations", control.durations),
        ("rabi", control.rabi),
        ("az", control.azimuth),
        ("det", control.detuning),
    ):
        if len(got) != len(want[key]):
            fail("a field has another length", field=key, got=len(got), expected=len(want[key]))
        for i, (a, b) in enumerate(zip(got, want[key])):
            if a != b:
                fail("a value is not stored exactly", field=key, index=i, got=a, expected=b)
    for field in ("durations", "rabi_rates", "azimuthal_angles", "detunings"):
        encoded = result["ok"]["fields"][field]
        if not isinstance(encoded, dict) or not encoded["dtype"].startswith("float"):
            fail("a field is not a floating point array", field=field, got=str(encoded)[:100])
    if control.name != case["name"]:
        fail("the name is not kept", got=control.name, expected=case["name"])
    omitted = "".join(k for k in ("rabi", "az", "det") if case[k] is None)
    return "%s%s" % (case["mode"], " omitting" if omitted else "")


@st.composite
def defective(draw, ctx):
    case = draw(ctrl.control(ctx, most=12))
    if draw(st.integers(0, 9)) == 0:
        case = draw(ctrl.long_control(ctx, 50, 400))
    n = len(case["durations"])
    bad = st.one_of(
        gen.log_uniform(1e-30, 1e6).map(lambda v: -v),
        st.sampled_from([-1.0, -1e-12, -1e-300, -5e-324, float("nan"), float("-inf")]),
    )
    kinds = ["duration", "length"]
    if case["rabi"] is not None:
        kinds += ["rabi", "rabi"]
    kind = draw(st.sampled_from(kinds))
    if kind == "duration":
        i = draw(st.integers(0, n - 1))
        case["durations"] = list(case["durations"])
        case["durations"][i] = draw(st.one_of(st.sampled_from([0.0, -0.0]), bad))
    elif kind == "rabi":
        i = draw(st.integers(0, n - 1))
        case["rabi"] = list(case["rabi"])
        case["rabi"][i] = draw(bad)
    else:
        key = draw(st.sampled_from(["rabi", "az", "det"]))
        current = case[key] if case[key] is not None else [1.0] * n
        change = draw(st.sampled_from(["longer", "shorter", "double", "empty", "one"]))
        if change == "longer":
            current = list(current) + [draw(st.sampled_from([0.0, 1.0]))] * draw(st.integers(1, 3))
        elif change == "shorter" or (change == "one" and n == 1):
            current = list(current)[:-1]
        elif change == "double":
            current = list(current) * 2
        elif change == "empty":
            current = []
        else:
            current = list(current)[:1]
        case[key] = current
        if draw(st.integers(0, 3)) == 0:
            # another field has the same wrong length
            case[draw(st.sampled_from([k for k in ("rabi", "az", "det") if k != key]))] = [0.5] * len(current)
        kind += " " + change
    case["defect"] = kind
    return case


def check_refuse(ctx, case):
    (result,) = ctx.run([ctrl.step(case)])
    gen.expect_refusal(fail, result, "an invalid control (%s)" % case["defect"])
    return case["defect"]


COMPONENTS = [
    Component("accepted", check_accept,
              "valid controls in all containers, with omitted fields, integer, single precision and extreme values; non-trivial: all",
              strategy=accepted, quick=8000),
    Component("refused", check_refuse,
              "controls with one defect (duration, Rabi rate or length) at any position; non-trivial: all",
              strategy=defective, quick=6400),
]
