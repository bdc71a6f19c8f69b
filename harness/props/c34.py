import math

from hypothesis import strategies as st

from .. import gen
from ..core import Component, fail

ASSUMPTIONS = ["a helper that no longer exists has nothing to be judged"]

TEXT = st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=126), max_size=20)
WORDS = st.one_of(
    st.sampled_from(["durations", "maximum_rabi_rate", "name", "x", "_x", "a b", "", "type(attribute)", "%s", "{0}",
                     "{x}", "a=b", "a\nb"]),
    TEXT,
)


def values():
    simple = st.one_of(
        st.none(), st.booleans(), st.integers(-10 ** 20, 10 ** 20), st.floats(allow_nan=False, allow_infinity=False),
        st.sampled_from([0.1, -0.0, 1e300, 5e-324, math.inf, -math.inf, math.nan]), WORDS,
    )
    return st.one_of(simple, st.lists(simple, max_size=6), st.lists(st.floats(-10, 10), min_size=30, max_size=60))


def shown(value):
    return repr(value)


def table():
    return st.lists(st.tuples(WORDS, values()), max_size=5, unique_by=lambda pair: pair[0])


@st.composite
def errors(draw, ctx):
    case = {
        "description": draw(st.one_of(WORDS, st.just("Must be positive."))),
        "arguments": draw(table()),
        "extras": draw(st.one_of(st.none(), table())),
        "how": draw(st.sampled_from(["error", "check", "check"])),
        "condition": draw(st.sampled_from([True, False, False])),
        "boolean": draw(st.sampled_from(["bool", "bool", "numpy"])),
        "positional": draw(st.integers(0, 4)),
        "extras_omitted": draw(st.booleans()),
    }
    return case


def check_error(ctx, case):
    kw = {"description": case["description"], "arguments": {"$dict": [list(p) for p in case["arguments"]]}}
    if case["extras"] is not None:
        kw["extras"] = {"$dict": [list(p) for p in case["extras"]]}
    elif not case["extras_omitted"]:
        kw["extras"] = None
    order = ["description", "arguments", "extras"]
    if case["how"] == "check":
        condition = case["condition"]
        kw["condition"] = {"$np": ["bool_", condition]} if case["boolean"] == "numpy" else condition
        order = ["condition"] + order
    given = [k for k in order if k in kw]
    args = [kw.pop(k) for k in given[: case["positional"]]]
    module, fn = ("utils", "check_arguments") if case["how"] == "check" else ("exceptions", "ArgumentsValueError")
    (result,) = ctx.run([{"op": "helper", "module": module, "fn": fn, "args": args, "kw": kw}])
    if "skip" in result:
        return False
    if case["how"] == "check":
        if case["condition"]:
            if "exc" in result:
                fail("a true condition was refused", text=result["exc"]["str"][:300])
            if result["ok"] is not None:
                fail("a true condition gave a result", got=str(result["ok"])[:300])
            return "true"
        if "ok" in result:
            fail("a false condition was accepted")
        error = result["exc"]
    else:
        if "exc" in result:
            fail("the error cannot be built", text=result["exc"]["str"][:300])
        error = result["ok"]
        error = dict(error["d"])
    if not error["argument_error"] or not error["package_error"]:
        fail("not the package's argument error", error=error["type"])
    if error["description"] != case["description"]:
        fail("the description is not the given one", got=error["description"], expected=case["description"])
    text = case["description"]
    for what in ("arguments", "extras"):
        wanted = [[k, shown(v)] for k, v in case[what] or []]
        if [list(p) for p in error[what] or []] != wanted:
            fail("the %s are not the given ones" % what, got=str(error[what])[:300], expected=str(wanted)[:300])
        for key, value in wanted:
            text += "\n%s=%s" % (key, value)
    for what in ("message", "str"):
        if error[what] != text:
            fail("the text is not the description and the reported values", what=what, got=error[what][:400],
                 expected=text[:400])
    return "%s %d %s" % (case["how"], min(len(case["arguments"]), 2), case["extras"] is not None)


NAMES = st.sampled_from(["a", "b", "c", "durations", "name", "_hidden", "rabi_rates", "A1"])


@st.composite
def representations(draw, ctx):
    attributes = draw(st.lists(st.tuples(NAMES, values()), max_size=6, unique_by=lambda p: p[0]))
    if draw(st.integers(0, 9)) == 0:
        # many attributes
        few = draw(st.lists(values(), min_size=1, max_size=4))
        attributes = [("x%d" % i, few[i % len(few)]) for i in range(draw(gen.size(ctx, 7, 60, 300)))]
    names = draw(st.permutations([k for k, _ in attributes]))
    names = list(names[: draw(st.integers(0, len(names)))])
    if names and draw(st.integers(0, 5)) == 0:
        names.append(names[0])
    case = {
        "class": draw(st.sampled_from(["Thing", "DrivenControl", "X", "thing_1"])),
        "attributes": attributes,
        "names": names,
        "wrong": draw(st.sampled_from([None, None, None, "instance", "list", "name", "left out"])),
        "container": draw(st.sampled_from(["list", "list", "tuple"])),
        "positional": draw(st.booleans()),
    }
    if case["wrong"] == "name":
        bad = draw(st.sampled_from([1, 1.5, None, True, ["a"]]))
        case["names"].insert(draw(st.integers(0, len(names))), bad)
    return case


def check_representation(ctx, case):
    thing = {"$thing": case["class"], "attributes": [list(p) for p in case["attributes"]]}
    names = case["names"] if case["container"] == "list" else {"$tuple": case["names"]}
    kw = {"class_instance": thing, "attributes": names}
    if case["wrong"] == "instance":
        kw["class_instance"] = None
    elif case["wrong"] == "list":
        kw["attributes"] = None
    elif case["wrong"] == "left out":
        del kw["attributes"]
    args = []
    if case["positional"]:
        args = [kw.pop(k) for k in ("class_instance", "attributes") if k in kw]
    (result,) = ctx.run([{"op": "helper", "module": "utils", "fn": "create_repr_from_attributes", "args": args,
                          "kw": kw}])
    if "skip" in result:
        return False
    if case["wrong"] is not None:
        gen.expect_refusal(fail, result, "a representation with a bad %s" % case["wrong"])
        reported = [key for key, _ in result["exc"]["arguments"]]
        wanted = {"instance": "class_instance", "name": None}.get(case["wrong"], "attributes")
        if not reported or wanted is not None and wanted not in reported:
            fail("the refusal does not report the bad argument", text=result["exc"]["str"][:300])
        return case["wrong"]
    if "exc" in result:
        fail("a representation was refused", text=result["exc"]["str"][:300])
    if not case["names"]:
        wanted = "No attributes provided for object of class %s" % case["class"]
    else:
        stored = dict((k, v) for k, v in case["attributes"])
        wanted = "%s(%s)" % (case["class"], ",".join("%s=%s" % (k, shown(stored[k])) for k in case["names"]))
    if result["ok"] != wanted:
        fail("the representation is not the documented one", got=str(result["ok"])[:400], expected=wanted[:400])
    return "%d names" % min(len(case["names"]), 3)


COMPONENTS = [
    Component("errors", check_error,
              "errors and argument checks with any texts and values; non-trivial: all", strategy=errors, quick=6000),
    Component("representations", check_representation,
              "objects of several classes with any attributes, and bad arguments; non-trivial: all",
              strategy=representations, quick=6000),
]
