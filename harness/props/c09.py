import math

from hypothesis import strategies as st

from .. import conv, gen
from ..core import Component, fail
from . import c08, files
from .c04 import problem, spoiled

ASSUMPTIONS = ["both exports are compared by their numbers (1e-12 relative), titles in either spelling"]
TWO_PI = 2 * math.pi


@st.composite
def strategy(draw, ctx, long=False):
    """
    A sequence with limits that fit it. In part of the cases time is rescaled so
    that one of the limits is 2 pi, which can then be left to its default.
    """
    case = draw(conv.many(ctx, 300) if long else conv.convertible(ctx, 8))
    case["m"] = 0
    omit = draw(st.sampled_from(["", "", "R", "D", "RD"]))
    if omit:
        key = omit[0]
        s = case[key] / TWO_PI
        case["T"] *= s
        case["offsets"] = [min(o * s, case["T"]) for o in case["offsets"]]
        case["offsets"] = [case["T"] if o >= case["T"] * (1 - 1e-15) else o for o in case["offsets"]]
        case["R"] /= s
        case["D"] /= s
        case[key] = TWO_PI
        if omit == "RD":
            # the faster of the two limits must do for both
            if case["D"] < TWO_PI or not any(case["det"]):
                case["D"] = TWO_PI
            else:
                omit = "R"
    case["omit"] = omit
    case["options"] = draw(c08.options())
    return case


def export_step(case, path):
    step = c08.export_step(case["options"], path, "s")
    if "R" not in case["omit"]:
        step["kw"]["maximum_rabi_rate"] = case["R"]
    if "D" not in case["omit"]:
        step["kw"]["maximum_detuning_rate"] = case["D"]
    return step


def check(ctx, case):
    path, other = ctx.path(case["options"]["filename"]), ctx.path("other.out")
    name = case["name"]
    steps = [
        {"op": "remove", "path": path},
        {"op": "remove", "path": other},
        conv.sequence_step(case, name=name),
    ]
    old = c08.old_content(case["options"])
    if old is not None:
        steps.append({"op": "write", "path": path, "text": old})
    steps += [
        {"op": "ls", "path": ctx.scratch},
        export_step(case, path),
        {"op": "ls", "path": ctx.scratch},
        {"op": "read", "path": path},
        conv.convert_step(case, name=name),
        c08.export_step(case["options"], other, "c"),
        {"op": "read", "path": other},
        {"op": "snap", "obj": "s"},
        {"op": "remove", "path": path},
        {"op": "remove", "path": other},
    ]
    results = ctx.run(steps)
    before, exported, after, read, converted, _, read_other, snap, _, _ = results[-10:]
    gen.expect_sequence(fail, results[2], "a valid sequence")
    control = gen.expect_control(fail, converted, "the conversion of a realisable sequence")
    gen.expect_ok(fail, exported, "the export of a realisable sequence")
    want = {"durations": control.durations, "rabi": control.rabi, "az": control.azimuth, "det": control.detuning}
    files.judge(read["ok"], case["options"]["type"], case["options"]["coordinates"], want, name)
    if read["ok"] != read_other["ok"]:
        a = files.parse(read["ok"], case["options"]["type"], case["options"]["coordinates"])
        b = files.parse(read_other["ok"], case["options"]["type"], case["options"]["coordinates"])
        if a != b:
            fail("the sequence file differs from the file of its conversion")
    if sorted(set(before["ok"]) | {case["options"]["filename"]}) != sorted(after["ok"]):
        fail("the export left other files behind", before=before["ok"], after=after["ok"])
    if snap["ok"] != results[2]["ok"]:
        fail("the export changed the sequence")
    return "%s %s omit=%s%s" % (
        case["options"]["type"], case["options"]["coordinates"], case["omit"], "" if name is not None else " unnamed",
    )


@st.composite
def refused(draw, ctx):
    case = draw(spoiled(ctx))
    case["m"] = 0
    case["omit"] = ""
    case["options"] = draw(c08.options())
    return case


def check_refused(ctx, case):
    if problem(case) is None:
        return False
    path = ctx.path(case["options"]["filename"])
    old = "keep me" if case["options"]["old"] else None
    steps = [{"op": "remove", "path": path}, conv.sequence_step(case)]
    if old:
        steps.append({"op": "write", "path": path, "text": old})
    steps += [export_step(case, path), {"op": "read", "path": path}, {"op": "remove", "path": path}]
    exported, read, _ = ctx.run(steps)[-3:]
    gen.expect_refusal(fail, exported, "the export of a sequence that cannot be converted")
    if read["ok"] != old:
        fail("a refused export wrote to the file", before=old, after=str(read["ok"])[:200])
    return "%s%s" % (problem(case), " over a file" if old else "")


COMPONENTS = [
    Component("exports", check,
              "realisable sequences exported with given or default rates, compared with exporting the conversion; non-trivial: all",
              strategy=strategy, quick=4800),
    Component("long", check,
              "sequences of tens to hundreds of pulses; non-trivial: all",
              strategy=lambda ctx: strategy(ctx, True), quick=240),
    Component("refused", check_refused,
              "unrealisable sequences exported onto nothing or an existing file; non-trivial: an independent rule finds them unrealisable",
              strategy=refused, quick=1600),
]
