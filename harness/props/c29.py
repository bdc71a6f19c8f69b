import ast
import re

from hypothesis import strategies as st

from .. import conv, ctrl, gen, presets, schemes
from ..core import Component, fail
from . import c04, c06, c08, c16, c17, c24, c25
from .c32 import SIGNATURES

ASSUMPTIONS = [
    "a reported argument that has the name of a number or number list given in the call must show those numbers",
    "a factory may report arguments of the constructor it calls",
]

PARAMETERS = {
    "conversion": SIGNATURES["convert"][0],
    "control": SIGNATURES["DrivenControl"][0],
    "sequence": SIGNATURES["DynamicDecouplingSequence"][0],
    "preset": SIGNATURES["preset"][0] + SIGNATURES["DrivenControl"][0],
    "gaussian": SIGNATURES["gaussian"][0] + SIGNATURES["DrivenControl"][0],
    "scheme": sum((SIGNATURES[s][0] for s in schemes.ALL), []) + SIGNATURES["DynamicDecouplingSequence"][0],
    "plot": SIGNATURES["control export"][0],
    "control file": SIGNATURES["control file"][0],
    "sequence file": SIGNATURES["sequence file"][0] + SIGNATURES["convert"][0],
}
NUMBER = re.compile(r"[-+]?(?:nan|inf|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)")


def raw(value):
    """The numbers of a described list, or None."""
    if isinstance(value, list):
        return value
    if isinstance(value, dict):
        for key in ("$arr", "$tuple", "$strided", "$readonly"):
            if key in value:
                return value[key]
    return None


def listed(text):
    """The numbers shown by the representation of a list or array, or None if it is abbreviated."""
    if "..." in text or "dtype=object" in text:
        return None
    body = re.sub(r"dtype=\w+|float64|int64|array|np\.", "", text)
    return [float(v) for v in NUMBER.findall(body)]


@st.composite
def refused_call(draw, ctx):
    source = draw(st.sampled_from(
        ["conversion", "conversion", "control", "sequence", "preset", "gaussian", "scheme", "plot"]))
    if source == "conversion":
        case = draw(c04.spoiled(ctx))
        return {"source": source, "case": case,
                "steps": conv.both(case)}
    if source == "control":
        return {"source": source, "steps": [ctrl.step(draw(c06.defective(ctx)))]}
    if source == "sequence":
        case = draw(c24.defective(ctx))
        return {"source": source, "steps": [conv.sequence_step(case, name=case["name"])]}
    if source == "preset":
        case = draw(c16.refused(ctx))
        return {"source": source, "steps": [{"op": "call", "fn": case["fn"], "kw": case["kw"]}]}
    if source == "gaussian":
        case = draw(c17.refused(ctx))
        return {"source": source,
                "steps": [{"op": "call", "fn": "new_modulated_gaussian_control", "kw": case["kw"]}]}
    if source == "scheme":
        return {"source": source, "steps": [c25.call(draw(c25.refused(ctx)))]}
    control = draw(ctrl.control(ctx, most=3))
    kw = {"coordinates": draw(gen.bad_word(["cartesian", "cylindrical"]))}
    if draw(st.booleans()):
        kw["dimensionless_rabi_rate"] = draw(st.booleans())
    return {"source": source,
            "steps": [ctrl.step(control), {"op": "method", "obj": "c", "name": "export", "kw": kw}]}


def judge(result, passed=None, known=None):
    """The refusal's text follows the documented layout."""
    error = result["exc"]
    if not error["argument_error"] or not error["package_error"]:
        fail("not refused with the package's argument error", error=error["type"], text=error["str"][:300])
    if not isinstance(error["description"], str) or not error["description"].strip():
        fail("the refusal has no description")
    wanted = error["description"]
    for key, text in (error["arguments"] or []) + (error["extras"] or []):
        wanted += "\n%s=%s" % (key, text)
    for what in ("str", "message"):
        if error[what] != wanted:
            fail("the text of the refusal is not its description and arguments",
                 what=what, got=error[what][:500], expected=wanted[:500])
    if not error["arguments"]:
        fail("the refusal reports no argument", text=error["str"][:300])
    for key, text in error["arguments"]:
        if known is not None and key not in known:
            fail("a reported argument is not one of the call", argument=key, known=sorted(set(known)))
        value = (passed or {}).get(key)
        numbers = raw(value)
        if numbers is not None:
            shown = listed(text)
            if shown is not None and not gen.all_close(
                shown, [float(v) for v in numbers], 1e-3, 1e-7 * max([abs(v) for v in numbers if v == v] + [0.0])
            ):
                fail("a reported argument is not the given one", argument=key, got=text[:300], given=str(value)[:300])
        if isinstance(value, (int, float)) and not isinstance(value, bool):
            try:
                shown = float("nan") if text == "nan" else float(ast.literal_eval(text))
            except (ValueError, SyntaxError, TypeError):
                continue
            if not gen.close(shown, float(value), 1e-9):
                fail("a reported argument is not the given one", argument=key, got=text, given=value)
        elif isinstance(value, str) and text != repr(value):
            try:
                shown = ast.literal_eval(text)
            except (ValueError, SyntaxError):
                fail("a reported argument is not shown by its representation", argument=key, got=text)
            if shown != value:
                fail("a reported argument is not the given one", argument=key, got=text, given=value)


def check_call(ctx, case):
    results = ctx.run(case["steps"] + [{"op": "snap", "obj": "s"}, {"op": "snap", "obj": "c"}])
    last = results[len(case["steps"]) - 1]
    if "ok" in last:
        if case["source"] == "plot":
            fail("a plotting export with unknown coordinates was accepted", kw=case["steps"][-1]["kw"])
        return False  # not refused: judged by the properties on acceptance
    judge(last, case["steps"][-1]["kw"], PARAMETERS[case["source"]])
    if len(case["steps"]) == 2:
        after = results[-2] if case["source"] == "conversion" else results[-1]
        if after["ok"] != results[0]["ok"]:
            fail("a refused call changed the object")
    return case["source"]


@st.composite
def refused_export(draw, ctx):
    kind = draw(st.sampled_from(["control", "sequence"]))
    wrong = draw(st.sampled_from(["file_format", "file_type", "coordinates", "unconvertible"]))
    if kind == "control" and wrong == "unconvertible":
        wrong = "file_type"
    kw = {}
    if draw(st.booleans()):
        kw["file_type"] = draw(st.sampled_from(["CSV", "JSON"]))
    if draw(st.booleans()):
        kw["coordinates"] = draw(st.sampled_from(["cartesian", "cylindrical"]))
    if draw(st.booleans()):
        kw["file_format"] = "Q-CTRL expanded"
    if wrong != "unconvertible":
        good = {"file_format": ["Q-CTRL expanded"], "file_type": ["CSV", "JSON"],
                "coordinates": ["cartesian", "cylindrical"]}[wrong]
        kw[wrong] = draw(gen.bad_word(good))
    case = {"filename": draw(st.sampled_from(c08.FILENAMES)), "kind": kind, "wrong": wrong, "kw": kw, "old": draw(st.sampled_from([None, "", "keep\nme\n"]))}
    if kind == "control":
        case["object"] = draw(ctrl.control(ctx, most=4))
    elif wrong == "unconvertible":
        case["object"] = draw(c04.spoiled(ctx))
        case["object"]["m"] = 0
    else:
        case["object"] = draw(conv.convertible(ctx, 5))
        case["object"]["m"] = 0
    return case


def check_export(ctx, case):
    path, other = ctx.path(case["filename"]), ctx.path("after.out")
    item = case["object"]
    kw = dict(case["kw"])
    if case["kind"] == "control":
        build = ctrl.step(item, "o")
        limits = {}
    else:
        build = conv.sequence_step(item, "o", name=item["name"])
        limits = {"maximum_rabi_rate": item["R"], "maximum_detuning_rate": item["D"]}
        if case["wrong"] == "unconvertible" and c04.problem(item) is None:
            return False
    steps = [{"op": "remove", "path": path}, {"op": "remove", "path": other}, build]
    if case["old"] is not None:
        steps.append({"op": "write", "path": path, "text": case["old"]})
    usable = dict(limits)
    if case["wrong"] == "unconvertible":
        final = {"op": "method", "obj": "o", "name": "export"}
    else:
        final = {"op": "method", "obj": "o", "name": "export_to_file", "args": [other], "kw": usable}
    steps += [
        {"op": "ls", "path": ctx.scratch},
        {"op": "method", "obj": "o", "name": "export_to_file", "args": [path], "kw": dict(kw, **limits)},
        {"op": "ls", "path": ctx.scratch},
        {"op": "read", "path": path},
        {"op": "snap", "obj": "o"},
        final,
        {"op": "remove", "path": path},
        {"op": "remove", "path": other},
    ]
    results = ctx.run(steps)
    before, refused, after, content, snap, again, _, _ = results[-8:]
    if "ok" in refused:
        fail("an export with a bad %s was accepted" % case["wrong"], kw=kw)
    judge(refused, kw, PARAMETERS[case["kind"] + " file"])
    if after["ok"] != before["ok"]:
        fail("a refused export created or removed a file", before=before["ok"], after=after["ok"])
    if content["ok"] != case["old"]:
        fail("a refused export changed the file", before=case["old"], after=str(content["ok"])[:300])
    if snap["ok"] != results[2]["ok"]:
        fail("a refused export changed the object")
    if "exc" in again:
        fail("the object is not usable after a refusal", text=again["exc"]["str"][:300])
    return "%s %s%s" % (case["kind"], case["wrong"], "" if case["old"] is None else " over a file")


def systematic(ctx):
    """Every factory with every parameter made invalid, alone."""
    calls = []
    for scheme in schemes.ALL:
        valid = dict({key: 3 for key in schemes.COUNTS[scheme]}, duration=2.0)
        for target in valid:
            values = [-2.5, -1] + ([0, 0.25] if target != "duration" else [])
            for value in values + ([2500] if target == "paley_order" else []):
                calls.append({"fn": "new_%s_sequence" % scheme, "kw": dict(valid, **{target: value}),
                              "target": target, "names": SIGNATURES[scheme][0]})
    for scheme in presets.ALL:
        valid = {"rabi_rotation": presets.DISCRETE_ANGLES[1], "maximum_rabi_rate": 2.0, "azimuthal_angle": 0.3}
        for target in ("rabi_rotation", "maximum_rabi_rate"):
            values = [-2.5, -1, 0, 0.0]
            if target == "rabi_rotation" and scheme in presets.DISCRETE:
                values += [0.1, 6.0]
            if target == "rabi_rotation" and presets.CONTINUOUS.get(scheme, 1000) < 100:
                values += [13.0, 1000.0]
            for value in values:
                calls.append({"fn": "new_%s_control" % scheme, "kw": dict(valid, **{target: value}),
                              "target": target,
                              "names": SIGNATURES["preset"][0] + SIGNATURES["DrivenControl"][0]})
    valid = {"maximum_rabi_rate": 50.0, "minimum_segment_duration": 0.2, "duration": 3.0, "modulation_frequency": 1.5}
    for target in ("maximum_rabi_rate", "minimum_segment_duration", "duration"):
        for value in (-2.5, -1, 0, 0.0):
            calls.append({"fn": "new_modulated_gaussian_control", "kw": dict(valid, **{target: value}),
                          "target": target, "names": SIGNATURES["gaussian"][0]})
    return calls


def check_systematic(ctx, case):
    (result,) = ctx.run([{"op": "call", "fn": case["fn"], "kw": case["kw"]}])
    if "ok" in result:
        fail("a call with a bad argument was accepted", fn=case["fn"], kw=case["kw"])
    judge(result, case["kw"], case["names"])
    reported = [key for key, _ in result["exc"]["arguments"]]
    if case["target"] not in reported and "durations" not in reported:
        fail("the refusal does not report the bad argument", fn=case["fn"], target=case["target"],
             text=result["exc"]["str"][:300])
    return case["fn"]


COMPONENTS = [
    Component("systematic", check_systematic,
              "every factory with every parameter out of its domain, alone; non-trivial: all", cases=systematic),
    Component("calls", check_call,
              "refused calls of every kind: text, arguments, objects left alone; non-trivial: the call is refused",
              strategy=refused_call, quick=7200),
    Component("exports", check_export,
              "refused file exports onto nothing or an existing file; non-trivial: the export must be refused",
              strategy=refused_export, quick=4000),
]
