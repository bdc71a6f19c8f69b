import os

from hypothesis import strategies as st

from .. import ctrl, gen, presets
from ..core import Component, fail
from . import files

ASSUMPTIONS = [
    "column titles may be singular (as documented) or plural (as written), and columns in any order",
    "stored numbers are compared exactly, normalised ones to 1e-12 relative",
]


FILENAMES = ["out.dat", "a b.csv", "control", "x.json", "ü.csv", "UPPER.CSV", "Mixed.Json", " padded.csv ",
             ".hidden", "two.dots.csv", "trailing.", "%s{0}.csv", "-dash", "quote'\".csv",
             "$HOME.csv", "~", "a\tb\nc.csv", "n" * 200 + ".csv"]


@st.composite
def options(draw):
    return {
        "type": draw(st.sampled_from(["CSV", "JSON"])),
        "coordinates": draw(st.sampled_from(["cylindrical", "cartesian"])),
        "explicit": draw(st.booleans()),
        "old": draw(st.sampled_from([None, None, "short", "long", "same"])),
        "filename": draw(st.sampled_from(FILENAMES)),
        "given": draw(st.sampled_from(["absolute", "absolute", "relative", "dotted"])),
    }


def given(case, path):
    """The path as the caller writes it; the worker's directory is the one of the file."""
    if case.get("given") == "relative":
        return os.path.basename(path)
    if case.get("given") == "dotted":
        return os.path.join(".", ".", os.path.basename(path))
    return path


@st.composite
def strategy(draw, ctx):
    if draw(st.integers(0, 7)) == 0:
        case = {"preset": draw(presets.valid(ctx, names=False))}
        case["preset"]["kw"]["name"] = draw(gen.name())
    else:
        case = {"control": draw(ctrl.control(ctx, most=8))}
    case.update(draw(options()))
    return case


@st.composite
def long_strategy(draw, ctx):
    case = {"control": draw(ctrl.long_control(ctx, 20, 1500))}
    case.update(draw(options()))
    return case


def export_step(case, path, obj="c"):
    kw = {}
    if case["explicit"] or case["type"] != "CSV":
        kw["file_type"] = case["type"]
    if case["explicit"] or case["coordinates"] != "cylindrical":
        kw["coordinates"] = case["coordinates"]
    if case["explicit"]:
        kw["file_format"] = "Q-CTRL expanded"
    return {"op": "method", "obj": obj, "name": "export_to_file", "args": [given(case, path)], "kw": kw}


def old_content(case):
    if case["old"] == "short":
        return "old"
    if case["old"] == "long":
        return "9,9,9,9,9\n" * 40000
    return None


def check(ctx, case):
    path = ctx.path(case["filename"])
    if "control" in case:
        build = ctrl.step(case["control"])
        name = case["control"]["name"]
    else:
        build = {"op": "call", "fn": case["preset"]["fn"], "kw": case["preset"]["kw"], "as": "c"}
        name = case["preset"]["kw"]["name"]
    steps = [{"op": "remove", "path": path}, build]
    if old_content(case) is not None:
        steps.append({"op": "write", "path": path, "text": old_content(case)})
    elif case["old"] == "same":
        steps.append(export_step(case, path))
    steps += [
        {"op": "ls", "path": ctx.scratch},
        export_step(case, path),
        {"op": "read", "path": path},
        {"op": "ls", "path": ctx.scratch},
        {"op": "snap", "obj": "c"},
        {"op": "remove", "path": path},
    ]
    results = ctx.run(steps)
    control = gen.expect_control(fail, results[1], "a valid control")
    before, exported, read, after, snap, _ = results[-6:]
    gen.expect_ok(fail, exported, "the export of a control")
    want = {"durations": control.durations, "rabi": control.rabi, "az": control.azimuth, "det": control.detuning}
    files.judge(read["ok"], case["type"], case["coordinates"], want, name)
    if sorted(set(before["ok"]) | {case["filename"]}) != sorted(after["ok"]):
        fail("the export left other files behind", before=before["ok"], after=after["ok"])
    if snap["ok"] != results[1]["ok"]:
        fail("the export changed the control")
    return "%s %s%s%s%s" % (
        case["type"],
        case["coordinates"],
        " undriven" if not any(want["rabi"]) else "",
        " unnamed" if name is None else "",
        " over " + case["old"] if case["old"] else "",
    )


COMPONENTS = [
    Component("controls", check,
              "controls of all kinds exported in every file type and coordinate system, onto nothing or an older file, and read back; non-trivial: all",
              strategy=strategy, quick=6400),
    Component("long", check,
              "controls with tens to hundreds of segments; non-trivial: all",
              strategy=long_strategy, quick=320),
]
