import cmath

from hypothesis import strategies as st

from .. import ctrl, gen
from ..core import Component, fail


@st.composite
def strategy(draw, ctx, long=False):
    control = draw(ctrl.long_control(ctx, 20, 400)) if long else draw(ctrl.control(ctx, most=8))
    return {
        "control": control,
        "coordinates": draw(st.sampled_from(["cylindrical", "cartesian", None])),
        "dimensionless": draw(st.sampled_from([True, False, None])),
    }


def number(value):
    if isinstance(value, dict) and "c" in value:
        return complex(*value["c"])
    if isinstance(value, (int, float)) and not isinstance(value, bool):
        return complex(value)
    fail("a plotted value is not a number", got=value)


def entries(channel, key, n):
    if not isinstance(channel, list) or len(channel) != n:
        fail("a channel does not list every segment", got=len(channel), expected=n)
    result = []
    for entry in channel:
        fields = gen.table(entry)
        if set(fields) != {key, "duration" if key == "value" else "offset"}:
            fail("unexpected fields of an entry", fields=sorted(fields))
        result.append((number(fields[key]), fields["duration" if key == "value" else "offset"]))
    return result


def check(ctx, case):
    kw = {}
    if case["coordinates"]:
        kw["coordinates"] = case["coordinates"]
    if case["dimensionless"] is not None:
        kw["dimensionless_rabi_rate"] = case["dimensionless"]
    results = ctx.run(
        [
            ctrl.step(case["control"]),
            {"op": "method", "obj": "c", "name": "export", "kw": kw},
            {"op": "snap", "obj": "c"},
        ]
    )
    gen.expect_control(fail, results[0], "a valid control")
    data = gen.table(gen.expect_ok(fail, results[1], "the plot export"))
    want = ctrl.full(case["control"])
    n = len(want["durations"])
    top = max(want["rabi"])
    unit = top if case["dimensionless"] is not False and top > 0 else 1.0
    cartesian = case["coordinates"] == "cartesian"
    channels = {"X amplitude", "Y amplitude", "Detuning"} if cartesian else {"Rabi rate", "Detuning"}
    if set(data) != channels:
        fail("unexpected channels", got=sorted(data), expected=sorted(channels))
    drive = [cmath.rect(r / unit, a) for r, a in zip(want["rabi"], want["az"])]
    expected = {"Detuning": [complex(d) for d in want["det"]]}
    if cartesian:
        expected["X amplitude"] = [complex(v.real) for v in drive]
        expected["Y amplitude"] = [complex(v.imag) for v in drive]
    else:
        expected["Rabi rate"] = drive
    for channel, wanted in expected.items():
        for i, ((value, duration), ideal) in enumerate(zip(entries(data[channel], "value", n), wanted)):
            floor = 0.0 if channel == "Detuning" else 1e-12 * abs(drive[i])
            if not (abs(value - ideal) <= max(1e-9 * abs(ideal), floor)):
                fail("wrong plotted value", channel=channel, segment=i, got=str(value), expected=str(ideal))
            if not gen.close(duration, want["durations"][i], 1e-12):
                fail("wrong plotted duration", channel=channel, segment=i, got=duration,
                     expected=want["durations"][i])
    if results[2]["ok"] != results[0]["ok"]:
        fail("the plot export changed the control")
    return "%s dimensionless=%s%s" % (
        case["coordinates"], case["dimensionless"], "" if top else " undriven")


@st.composite
def unknown(draw, ctx):
    kw = {"coordinates": draw(gen.bad_word(["cartesian", "cylindrical"]))}
    if draw(st.booleans()):
        kw["dimensionless_rabi_rate"] = draw(st.booleans())
    return {"control": draw(ctrl.control(ctx, most=4)), "kw": kw}


def check_unknown(ctx, case):
    results = ctx.run(
        [
            ctrl.step(case["control"]),
            {"op": "method", "obj": "c", "name": "export", "kw": case["kw"]},
            {"op": "snap", "obj": "c"},
        ]
    )
    gen.expect_refusal(fail, results[1], "a plotting export in unknown coordinates")
    if results[2]["ok"] != results[0]["ok"]:
        fail("the refused plot export changed the control")
    return "refused"


COMPONENTS = [
    Component("controls", check,
              "controls of all kinds exported for plotting in every setting; non-trivial: all",
              strategy=lambda ctx: strategy(ctx), quick=8000),
    Component("long", check,
              "controls with tens to hundreds of segments; non-trivial: all",
              strategy=lambda ctx: strategy(ctx, True), quick=240),
    Component("unknown coordinates", check_unknown,
              "exports in coordinates other than the two known ones must be refused; non-trivial: all",
              strategy=unknown, quick=600),
]
