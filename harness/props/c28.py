from hypothesis import strategies as st

from .. import conv, ctrl, gen, presets
from ..core import Component, fail

ASSUMPTIONS = [
    "displayed precision: 8 digits (relative 1e-7, or 1e-8 absolute where numpy uses fixed point)",
]


def compare_lists(what, got, want):
    if len(got) != len(want):
        fail("a field changes its length", field=what, got=len(got), expected=len(want))
    nonzero = [abs(v) for v in want if v]
    fixed = nonzero and min(nonzero) >= 1e-4 and max(nonzero) < 1e8
    for i, (a, b) in enumerate(zip(got, want)):
        if not gen.close(a, b, 1e-7, 1e-8 if fixed else 0.0):
            fail("a value changes", field=what, index=i, got=a, expected=b)


def compare(first, second):
    if "exc" in second:
        fail("the representation cannot be evaluated", error=second["exc"]["type"], text=second["exc"]["str"][:300])
    if not isinstance(second["ok"], dict) or second["ok"].get("obj") != first["ok"]["obj"]:
        fail("the representation gives another kind of object", got=str(second["ok"])[:200])
    a, b = first["ok"]["fields"], second["ok"]["fields"]
    for key in a:
        if key == "name":
            if a[key] != b[key]:
                fail("the name changes", got=b[key], expected=a[key])
        elif key == "duration":
            if not gen.close(a[key], b[key], 1e-7):
                fail("the duration changes", got=b[key], expected=a[key])
        else:
            compare_lists(key, gen.values(b[key]), gen.values(a[key]))


def check(ctx, case):
    r = ctx.run([case["step"], {"op": "eval_repr", "obj": "o"}, {"op": "snap", "obj": "o"}])
    if "exc" in r[0]:
        fail("a valid object was refused", text=r[0]["exc"]["str"][:300])
    compare(r[0], r[1])
    if r[2]["ok"] != r[0]["ok"]:
        fail("the representation changed the object")
    size = max(len(v["a"]) for v in r[0]["ok"]["fields"].values() if isinstance(v, dict))
    return "%s, %s" % (case["source"], "empty" if size == 0 else "1-20" if size <= 20 else "many")


@st.composite
def strategy(draw, ctx):
    source = draw(st.sampled_from(["control", "control", "sequence", "sequence", "preset", "scheme", "long", "long sequence", "wide"]))
    if source == "control":
        step = ctrl.step(draw(ctrl.control(ctx, most=10)), "o")
    elif source == "wide":
        step = ctrl.step(draw(ctrl.control(ctx, most=6, spread=1)), "o")
    elif source == "long":
        step = ctrl.step(draw(ctrl.long_control(ctx, 20, 1600)), "o")
    elif source == "long sequence":
        case = draw(conv.many(ctx, 600))
        step = conv.sequence_step(case, "o", name=case["name"])
    elif source == "sequence":
        case = draw(st.one_of(ctrl.sequence(ctx, 10), conv.convertible(ctx, 8), conv.integral(ctx)))
        step = conv.sequence_step(case, "o", name=case["name"])
    elif source == "preset":
        case = draw(presets.valid(ctx, names=False))
        step = {"op": "call", "fn": case["fn"], "kw": dict(case["kw"], name=draw(gen.name())), "as": "o"}
    else:
        case = draw(conv.predefined(ctx, 200))
        step = conv.factory_step(dict(case, kw=dict(case["kw"], name=draw(gen.name()))), "o")
    return {"source": source, "step": step}


COMPONENTS = [
    Component("objects", check,
              "controls and sequences of all kinds and lengths recreated from their representation; non-trivial: all",
              strategy=strategy, quick=6400),
]
