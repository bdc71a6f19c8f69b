from hypothesis import strategies as st

from .. import gen
from ..core import Component, fail
from . import c26, c28, c29, c34

ASSUMPTIONS = [
    "shallow copies may share arrays with the original",
]

WAYS = st.sampled_from(["copy", "deepcopy", 0, 1, 2, 3, 4])


@st.composite
def objects(draw, ctx):
    case = draw(c28.strategy(ctx))
    case["how"] = draw(WAYS)
    case["again"] = draw(st.one_of(st.none(), WAYS))
    case["index"] = draw(st.integers(0, 50))
    case["field"] = draw(st.integers(0, 3))
    case["whole"] = draw(st.booleans())
    case["limits"] = draw(st.sampled_from([1.0, 100.0, 1e4, 1e9]))
    case["changed"] = draw(st.sampled_from(["o", "p"]))
    return case


def uses(label, kind, case):
    steps = [{"op": "str", "obj": label}, {"op": "repr", "obj": label},
             {"op": "method", "obj": label, "name": "export"}]
    if kind == "s":
        steps.append({"op": "call", "fn": "convert_dds_to_driven_control", "args": [{"$ref": label}],
                      "kw": {"maximum_rabi_rate": case["limits"], "maximum_detuning_rate": case["limits"]}})
    else:
        steps += [{"op": "get", "obj": label, "name": name} for name in c26.DERIVED]
    return steps


def check_object(ctx, case):
    kind = "s" if case["step"]["fn"] in ("DynamicDecouplingSequence",) or case["step"]["fn"].endswith("_sequence") else "c"
    steps = [case["step"], {"op": "duplicate", "obj": "o", "how": case["how"], "as": "p"}]
    if case["again"] is not None:
        steps.append({"op": "duplicate", "obj": "p", "how": case["again"], "as": "p"})
    place = len(steps)
    mine, other = uses("o", kind, case), uses("p", kind, case)
    steps += mine + other
    after = len(steps)
    fields = c26.SEQUENCE_FIELDS if kind == "s" else c26.CONTROL_FIELDS
    kept = "p" if case["changed"] == "o" else "o"
    steps += [
        {"op": "snap", "obj": kept},
        {"op": "change", "obj": case["changed"], "name": fields[case["field"]], "index": case["index"],
         "whole": case["whole"]},
        {"op": "setattr", "obj": case["changed"], "name": "name", "value": "renamed"},
        {"op": "snap", "obj": kept},
    ]
    results = ctx.run(steps)
    first = gen.expect_ok(fail, results[0], "a valid object")
    for result in results[1:place]:
        if "exc" in result:
            fail("the object cannot be copied", error=result["exc"]["type"], text=result["exc"]["str"][:300])
        if result["ok"] != first:
            fail("the copy differs", got=str(result["ok"])[:600], expected=str(first)[:600])
    for i, use in enumerate(mine):
        a, b = results[place + i], results[place + len(mine) + i]
        if a != b and repr(a) != repr(b):  # undefined values differ from themselves
            if "exc" in a and "exc" in b and a["exc"]["type"] == b["exc"]["type"] and a["exc"]["str"] == b["exc"]["str"]:
                continue
            fail("the copy behaves differently", step=use, original=str(a)[:500], copy=str(b)[:500])
    ways = {case["how"], case["again"]} - {None}
    if ways != {"copy"} and results[after] != results[after + 3]:
        fail("the copy and the original share their contents", how=case["how"], again=case["again"],
             before=str(results[after]["ok"])[:500], after=str(results[after + 3]["ok"])[:500])
    return "%s, %s" % (case["source"], case["how"])


@st.composite
def errors(draw, ctx):
    case = {"how": draw(WAYS)}
    if draw(st.booleans()):
        case["call"] = draw(c29.refused_call(ctx))
    else:
        case["built"] = {
            "description": draw(c34.WORDS),
            "arguments": draw(c34.table()),
            "extras": draw(st.one_of(st.none(), c34.table())),
        }
    return case


def check_error(ctx, case):
    if "call" in case:
        steps = list(case["call"]["steps"])
        steps[-1] = {"op": "duplicate_error", "step": steps[-1], "how": case["how"]}
        source = case["call"]["source"]
    else:
        built = {k: {"$dict": [list(p) for p in v]} if isinstance(v, list) else v for k, v in case["built"].items()}
        steps = [{"op": "duplicate_error", "fn": "ArgumentsValueError", "error": built, "how": case["how"]}]
        source = "built"
    result = ctx.run(steps)[-1]
    if "ok" not in result:
        return False  # not refused, or not with the argument error: judged elsewhere
    result = gen.table(result["ok"])
    if "failure" in result:
        fail("the error cannot be copied", how=case["how"], text=result["failure"][:300])
    first, second = gen.table(result["first"]), gen.table(result["second"])
    for key in first:
        if first[key] != second.get(key):
            fail("the copy of the error differs", what=key, got=str(second.get(key))[:300],
                 expected=str(first[key])[:300])
    return "%s, %s" % (source, case["how"])


COMPONENTS = [
    Component("objects", check_object,
              "controls and sequences of all kinds copied or pickled once or twice, used next to the original, one of them changed afterwards; non-trivial: all",
              strategy=objects, quick=4000),
    Component("errors", check_error,
              "refusals of all functions and errors with arbitrary contents, copied and pickled; non-trivial: refused calls",
              strategy=errors, quick=4000),
]
