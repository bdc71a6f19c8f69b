import math
import re

from hypothesis import strategies as st

from .. import conv, ctrl, gen, presets
from ..core import Component, fail

PI = math.pi
ASSUMPTIONS = [
    "names contain no line break; the layout 'Quantity = [numbers] x scale' is the one the package documents by its tests",
    "numbers are compared to 1.5e-15 relative",
]


def read_lines(text, name):
    lines = text.split("\n")
    if name is not None:
        if lines[0] != name + ":":
            fail("the name is not shown first", got=lines[0], expected=name)
        lines = lines[1:]
    result = {}
    for line in lines:
        match = re.fullmatch(r"([A-Za-z ]+?) = (.*)", line)
        if not match:
            fail("a line is not of the form 'quantity = values'", line=line)
        if match.group(1) in result:
            fail("a quantity is shown twice", line=line)
        result[match.group(1)] = match.group(2)
    return result


def number(text, what):
    if text.strip() == "pi":
        return PI
    try:
        return float(text)
    except ValueError:
        fail("not a number", what=what, got=text)


def scaled(text, what):
    match = re.fullmatch(r"\[(.*)\] x (.*)", text)
    if not match:
        fail("not of the form '[numbers] x scale'", what=what, got=text)
    inner = match.group(1).strip()
    scale = number(match.group(2), what)
    return scale, [number(v, what) * scale for v in inner.split(",")] if inner else []


def compare(text, name, lists, scalars=()):
    shown = read_lines(text, name)
    expected = set(lists) | set(k for k, _ in scalars)
    if set(shown) != expected:
        fail("unexpected set of quantities", got=sorted(shown), expected=sorted(expected))
    for what, want in lists.items():
        scale, got = scaled(shown[what], what)
        if len(got) != len(want):
            fail("wrong number of values shown", what=what, got=len(got), expected=len(want))
        for i, (a, b) in enumerate(zip(got, want)):
            # a normalised number may be subnormal
            if not gen.close(a, b, 1.5e-15, max(1e-290, 1e-323 * abs(scale))):
                fail("a wrong value is shown", what=what, index=i, got=a, expected=b)
    for what, want in scalars:
        if not gen.close(number(shown[what], what), want, 5e-16):
            fail("a wrong value is shown", what=what, got=shown[what], expected=want)


def control_lists(want):
    return {
        "Rabi Rates": want["rabi"],
        "Azimuthal Angles": want["az"],
        "Detunings": want["det"],
        "Durations": want["durations"],
    }


def check_control(ctx, case):
    r = ctx.run([ctrl.step(case), {"op": "str", "obj": "c"}])
    gen.expect_control(fail, r[0], "a valid control")
    text = gen.expect_ok(fail, r[1], "printing a control")
    want = ctrl.full(case)
    compare(text, case["name"], control_lists(want))
    signs = "".join(
        s for s, present in (("+", any(d > 0 for d in want["det"])), ("-", any(d < 0 for d in want["det"])),
                             ("0", any(d == 0 for d in want["det"]))) if present
    )
    return "detunings %s%s" % (signs, "" if any(want["rabi"]) else ", undriven")


def check_sequence(ctx, case):
    r = ctx.run([conv.sequence_step(case, name=case["name"]), {"op": "str", "obj": "s"}])
    gen.expect_sequence(fail, r[0], "a valid sequence")
    text = gen.expect_ok(fail, r[1], "printing a sequence")
    compare(
        text,
        case["name"],
        {
            "Offsets": case["offsets"],
            "Rabi Rotations": case["rabi"],
            "Azimuthal Angles": case["az"],
            "Detuning Rotations": case["det"],
        },
        [("Duration", case["T"])],
    )
    return "pulses" if case["offsets"] else "empty"


@st.composite
def predefined(draw, ctx):
    name = draw(gen.name(False))
    if draw(st.booleans()):
        case = draw(presets.valid(ctx, names=False))
        fn = case["fn"]
    else:
        case = draw(conv.predefined(ctx))
        fn = "new_%s_sequence" % case["scheme"]
    kw = dict(case["kw"])
    if name is not None:
        kw["name"] = name
    return {"fn": fn, "kw": kw, "name": name}


def check_predefined(ctx, case):
    r = ctx.run([{"op": "call", "fn": case["fn"], "kw": case["kw"], "as": "o"}, {"op": "str", "obj": "o"}])
    text = gen.expect_ok(fail, r[1], "printing a predefined object")
    if case["fn"].endswith("_control"):
        control = gen.expect_control(fail, r[0], "a predefined control")
        compare(text, case["name"], control_lists({
            "rabi": control.rabi, "az": control.azimuth, "det": control.detuning, "durations": control.durations}))
        return "control"
    sequence = gen.expect_sequence(fail, r[0], "a predefined sequence")
    compare(
        text,
        case["name"],
        {
            "Offsets": sequence.offsets,
            "Rabi Rotations": sequence.rabi,
            "Azimuthal Angles": sequence.azimuth,
            "Detuning Rotations": sequence.detuning,
        },
        [("Duration", sequence.duration)],
    )
    return "sequence"


COMPONENTS = [
    Component("controls", check_control,
              "printed controls (all signs of detunings, undriven, named or not) read back; non-trivial: all",
              strategy=lambda ctx: ctrl.control(ctx, most=8, newline=False), quick=6400),
    Component("sequences", check_sequence,
              "printed sequences read back; non-trivial: all",
              strategy=lambda ctx: ctrl.sequence(ctx, 8, newline=False), quick=4000),
    Component("predefined", check_predefined,
              "printed predefined controls and sequences; non-trivial: all",
              strategy=predefined, quick=1600),
    Component("long controls", check_control,
              "printed controls of tens to hundreds of segments; non-trivial: all",
              strategy=lambda ctx: ctrl.long_control(ctx, 20, 1500, newline=False), quick=160),
    Component("long sequences", check_sequence,
              "printed sequences of tens to hundreds of pulses; non-trivial: all",
              strategy=lambda ctx: conv.many(ctx, 1200, newline=False), quick=160),
]
