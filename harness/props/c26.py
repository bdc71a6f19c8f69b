import json
import math
import re

from hypothesis import strategies as st

from .. import conv, ctrl, gen, presets, schemes
from ..core import Component, fail

PI = math.pi
ASSUMPTIONS = [
    "every operation of a history is repeated alone in a pristine process on objects with the same contents; numbers must agree to 1e-12 (1e-9 inside texts)",
    "callers change only what they own: results of factories, conversions, derived quantities and exports, not arrays shared with a constructor",
]

DERIVED = ["amplitude_x", "amplitude_y", "angles", "directions", "times", "duration", "maximum_rabi_rate",
           "maximum_detuning", "maximum_duration", "minimum_duration", "number_of_segments"]
CONTROL_FIELDS = ["durations", "rabi_rates", "azimuthal_angles", "detunings"]
SEQUENCE_FIELDS = ["offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations"]


# ----- histories -------------------------------------------------------------


@st.composite
def control_spec(draw, ctx):
    n = draw(st.integers(1, 4))
    grid = lambda low, high: st.lists(st.integers(low, high).map(lambda k: k / 8), min_size=n, max_size=n)
    kw = {"durations": draw(grid(1, 40)), "rabi_rates": draw(grid(0, 40)),
          "azimuthal_angles": draw(grid(-25, 25)), "detunings": draw(grid(-20, 20))}
    often = draw(st.sampled_from([0, 1, 5, 5]))
    for key in list(kw)[1:]:
        if draw(st.integers(0, often)) == 0:
            del kw[key]
    return {"fn": "DrivenControl", "kw": kw, "kind": draw(st.sampled_from(["list", "array", "strided", "tuple"])),
            "type": "c"}


@st.composite
def sequence_spec(draw, ctx):
    case = draw(conv.convertible(ctx, 4))
    for i in range(len(case["offsets"])):
        # rotations too small to become a pulse
        if not case["rabi"][i] and not case["det"][i] and draw(st.booleans()):
            case[draw(st.sampled_from(["rabi", "det"]))][i] = draw(st.sampled_from([1e-9, 1e-12, 8e-9]))
    kw = {"duration": case["T"], "offsets": case["offsets"], "rabi_rotations": case["rabi"],
          "azimuthal_angles": case["az"], "detuning_rotations": case["det"]}
    return {"fn": "DynamicDecouplingSequence", "kw": kw,
            "kind": draw(st.sampled_from(["list", "array", "strided", "tuple"])), "type": "s",
            "limits": {"maximum_rabi_rate": case["R"], "maximum_detuning_rate": case["D"],
                       "minimum_segment_duration": case["m"]}}


@st.composite
def preset_spec(draw, ctx):
    if draw(st.integers(0, 3)) == 0:
        return {"fn": "new_modulated_gaussian_control", "kw": draw(presets.gaussian(ctx, 12)), "type": "c"}
    case = draw(presets.valid(ctx))
    return {"fn": case["fn"], "kw": case["kw"], "type": "c"}


@st.composite
def scheme_spec(draw, ctx):
    scheme = draw(st.sampled_from(schemes.ALL))
    T = draw(st.sampled_from([1.0, 2.0, 1e-6, 10.0, 0.3]))
    kw = {"duration": T}
    for key in schemes.COUNTS[scheme]:
        most = 3 if key == "concatenation_order" and scheme[1] == "y" else 5
        if draw(st.integers(0, 3)) == 0:
            most = {"paley_order": 1023, "concatenation_order": most}.get(key, 12 if scheme == "quadratic" else 150)
        kw[key] = draw(st.integers(1, most))
    kw["pre_post_rotation"] = draw(st.booleans())
    return {"fn": "new_%s_sequence" % scheme, "kw": kw, "type": "s",
            "limits": {"maximum_rabi_rate": 1e6 * PI / T, "maximum_detuning_rate": 1e6 * PI / T,
                       "minimum_segment_duration": 0.0}}


@st.composite
def variation(draw, ctx, spec):
    """The same call with one argument changed."""
    spec = json.loads(json.dumps(spec))
    kw = spec["kw"]
    key = draw(st.sampled_from(sorted(kw) + ["name"]))
    if key == "name":
        if not spec["fn"].endswith("gaussian_control"):
            kw["name"] = draw(st.sampled_from(["a", "b", ""]))
    elif key == "duration" and spec["fn"] == "DynamicDecouplingSequence":
        kw[key] *= 2
    elif key in ("durations", "rabi_rates", "detunings", "azimuthal_angles", "rabi_rotations",
                 "detuning_rotations", "offsets"):
        if kw[key]:
            i = draw(st.integers(0, len(kw[key]) - 1))
            kw[key][i] = kw[key][i] / 2
    elif key in ("maximum_rabi_rate", "azimuthal_angle", "modulation_frequency"):
        kw[key] = kw[key] * 2 + (1.0 if key == "azimuthal_angle" else 0.0)
    elif key == "duration":
        kw[key] *= 2
        if "limits" in spec:
            spec["limits"]["maximum_rabi_rate"] *= 2
            spec["limits"]["maximum_detuning_rate"] *= 2
    elif key == "minimum_segment_duration":
        kw[key] *= 0.7
    elif key == "rabi_rotation":
        kw[key] = draw(st.sampled_from([PI, PI / 2, PI / 4]))
    elif key == "pre_post_rotation":
        kw[key] = not kw[key]
    elif key in sum(schemes.COUNTS.values(), []):
        kw[key] = draw(st.integers(1, 3 if key == "concatenation_order" else 5))
    return spec


BAD_CALLS = [
    {"fn": "DrivenControl", "kw": {"durations": [1.0, -1.0]}},
    {"fn": "DrivenControl", "kw": {"durations": [1.0, 1.0], "rabi_rates": [1.0, -1.0]}},
    {"fn": "DrivenControl", "kw": {"durations": [1.0], "detunings": [1.0, 2.0]}},
    {"fn": "DynamicDecouplingSequence", "kw": {"duration": 1.0, "offsets": [2.0], "rabi_rotations": [1.0],
                                               "azimuthal_angles": [0.0], "detuning_rotations": [0.0]}},
    {"fn": "new_bb1_control", "kw": {"rabi_rotation": 20.0, "maximum_rabi_rate": 1.0}},
    {"fn": "new_scrofulous_control", "kw": {"rabi_rotation": 1.0, "maximum_rabi_rate": 1.0}},
    {"fn": "new_wamf1_control", "kw": {"rabi_rotation": 1.0, "maximum_rabi_rate": 1.0}},
    {"fn": "new_walsh_sequence", "kw": {"duration": 1.0, "paley_order": 5000}},
    {"fn": "new_cpmg_sequence", "kw": {"duration": -1.0, "offset_count": 2}},
    {"fn": "new_quadratic_sequence", "kw": {"duration": 1.0, "inner_offset_count": 0, "outer_offset_count": 1}},
    {"fn": "new_modulated_gaussian_control", "kw": {"maximum_rabi_rate": 0.1, "minimum_segment_duration": 0.1,
                                                    "duration": 1.0, "modulation_frequency": 0.0}},
]


# settings that a program may have made before using the package (it is also in another directory then)
AMBIENT = st.fixed_dictionaries({
    "op": st.just("ambient"),
    "print": st.fixed_dictionaries({
        "precision": st.sampled_from([8, 3, 12, 17]),
        "threshold": st.sampled_from([1000, 2, 5, 100000]),
        "linewidth": st.sampled_from([75, 40, 200]),
        "suppress": st.booleans(),
        "floatmode": st.sampled_from(["maxprec", "fixed", "unique"]),
    }),
    "errors": st.fixed_dictionaries({
        key: st.sampled_from(["ignore", "warn", "raise"] if key in ("divide", "invalid") else ["ignore", "warn"])
        for key in ("divide", "over", "under", "invalid")
    }),
    "seed": st.integers(0, 3),
})


@st.composite
def strategy(draw, ctx):
    pool = []
    for _ in range(draw(st.integers(1, 2))):
        maker = draw(st.sampled_from([control_spec, sequence_spec, sequence_spec, preset_spec, scheme_spec, scheme_spec]))
        base = draw(maker(ctx))
        pool.append(base)
        if draw(st.integers(0, 2)):
            pool.append(draw(variation(ctx, base)))
    index = st.integers(0, 7)
    ops = [{"k": "new", "spec": i} for i in range(draw(st.integers(1, len(pool))))]
    for _ in range(draw(st.integers(3, 10 if ctx.tier == "quick" else 25))):
        kind = draw(st.sampled_from(["new", "new", "new", "get", "get", "text", "export", "file", "file", "convert",
                                     "convert", "refuse", "change", "change", "spoil", "spoil"]))
        op = {"k": kind}
        if kind == "new":
            op["spec"] = draw(st.integers(0, len(pool) - 1))
        elif kind == "refuse":
            op["bad"] = draw(st.integers(0, len(BAD_CALLS) + 2))
            op["o"] = draw(index)
        else:
            op["o"] = draw(index)
        if kind == "get":
            op["names"] = draw(st.one_of(st.just(DERIVED), st.lists(st.sampled_from(DERIVED), min_size=1, max_size=2)))
        elif kind == "text":
            op["how"] = draw(st.sampled_from(["str", "repr"]))
        elif kind == "export":
            op["coordinates"] = draw(st.sampled_from([None, "cartesian", "cylindrical"]))
            op["dimensionless"] = draw(st.sampled_from([None, True, False]))
        elif kind == "file":
            op["type"] = draw(st.sampled_from(["CSV", "JSON"]))
            op["coordinates"] = draw(st.sampled_from(["cartesian", "cylindrical"]))
            op["file"] = draw(st.sampled_from(["one", "two"]))
        elif kind == "convert":
            op["fit"] = draw(st.sampled_from([True, True, True, False]))
            op["name"] = draw(st.sampled_from([None, "converted"]))
        elif kind == "change":
            op["field"] = draw(st.integers(0, 4))
            op["i"] = draw(st.integers(0, 5))
            op["whole"] = draw(st.booleans())
        elif kind == "spoil":
            op["how"] = draw(st.sampled_from(["zero", "reverse", "other"]))
        ops.append(op)
    return {"pool": pool, "ops": ops, "ambient": draw(st.one_of(st.none(), AMBIENT))}


# ----- from a history to steps ---------------------------------------------


class Plan:
    """
    The steps of a history, and for every judged operation what to repeat alone.
    """

    def __init__(self, ctx, case):
        self.ctx = ctx
        self.steps = []
        self.objects = []  # (label, type, owned, spec)
        self.inputs = []  # (label, expected content)
        self.judged = []  # (operation, step index, how to repeat it, object or None)
        self.snapshots = []  # after every operation: (label changed, field changed, {label: step index})
        self.field = None  # the field changed last
        self.results = []  # labels of things a caller may overwrite
        for number, op in enumerate(case["ops"]):
            self.changed = None
            self.number = number
            self.add(number, op, case)
            places = {}
            for label, _, _, _ in self.objects:
                places[label] = len(self.steps)
                self.steps.append({"op": "snap", "obj": label})
            self.snapshots.append((self.changed, self.field, places))
        self.final_inputs = []
        for label, content in self.inputs:
            self.final_inputs.append((len(self.steps), content))
            self.steps.append({"op": "snap", "obj": label})

    def choose(self, index, kind=None):
        candidates = [o for o in self.objects if kind is None or o[1] == kind]
        return candidates[index % len(candidates)] if candidates else None

    def judge(self, step, what, label=None):
        self.judged.append((self.number, len(self.steps), what, label))
        self.steps.append(step)

    def add(self, number, op, case):
        kind = op["k"]
        if kind == "new":
            spec = case["pool"][op["spec"]]
            label = "o%d" % number
            kw = {}
            for key, value in spec["kw"].items():
                if isinstance(value, list):
                    name = "in%d_%s" % (number, key)
                    self.steps.append({"op": "value", "value": gen.wrap(value, spec["kind"]), "as": name})
                    self.inputs.append((name, value))
                    kw[key] = {"$ref": name}
                else:
                    kw[key] = value
            alone = {key: gen.wrap(v, spec["kind"]) if isinstance(v, list) else v for key, v in spec["kw"].items()}
            self.judge(
                {"op": "call", "fn": spec["fn"], "kw": kw, "as": label},
                {"steps": [{"op": "call", "fn": spec["fn"], "kw": alone}]},
            )
            owned = spec.get("kind") in (None, "list", "tuple")
            self.objects.append((label, spec["type"], owned, spec))
            return
        if kind == "refuse":
            if op["bad"] < len(BAD_CALLS):
                bad = dict(BAD_CALLS[op["bad"]], op="call")
                self.judge(bad, {"steps": [bad]})
                return
            target = self.choose(op["o"])
            if target is None:
                return
            step = {"op": "method", "obj": target[0], "name": "export_to_file",
                    "args": [self.ctx.path("refused")], "kw": {"file_type": "XML"}}
            self.judge(step, {"on": step}, target[0])
            return
        if kind == "spoil":
            if self.results:
                self.steps.append({"op": "mutate", "obj": self.results[op["o"] % len(self.results)], "how": op["how"]})
            return
        needs = {"get": "c", "convert": "s"}.get(kind)
        target = self.choose(op["o"], needs)
        if target is None:
            return
        label, which, owned, spec = target
        if kind == "get":
            step = {"op": "get", "obj": label, "as": "r%d" % number}
            if len(op["names"]) == 1:
                step["name"] = op["names"][0]
                self.results.append("r%d" % number)
            else:
                step["names"] = op["names"]
            self.judge(step, {"on": step}, label)
            if "names" in step:
                self.results.append("r%d" % number)
        elif kind == "text":
            step = {"op": op["how"], "obj": label}
            self.judge(step, {"on": step}, label)
        elif kind == "export":
            kw = {}
            if which == "c":
                if op["coordinates"]:
                    kw["coordinates"] = op["coordinates"]
                if op["dimensionless"] is not None:
                    kw["dimensionless_rabi_rate"] = op["dimensionless"]
            step = {"op": "method", "obj": label, "name": "export", "kw": kw, "as": "r%d" % number}
            self.judge(step, {"on": step}, label)
            self.results.append("r%d" % number)
        elif kind == "file":
            path = self.ctx.path("file-" + op["file"])
            kw = {"file_type": op["type"], "coordinates": op["coordinates"]}
            if which == "s":
                kw["maximum_rabi_rate"] = spec["limits"]["maximum_rabi_rate"]
                kw["maximum_detuning_rate"] = spec["limits"]["maximum_detuning_rate"]
            step = {"op": "method", "obj": label, "name": "export_to_file", "args": [path], "kw": kw}
            self.steps.append(step)
            read = {"op": "read", "path": path}
            self.judge(read, {"file": step, "path": path, "at": len(self.steps) - 1}, label)
        elif kind == "convert":
            kw = dict(spec["limits"])
            if not op["fit"]:
                kw["maximum_rabi_rate"] = 1e-3 / spec["kw"]["duration"]
            if op["name"]:
                kw["name"] = op["name"]
            step = {"op": "call", "fn": "convert_dds_to_driven_control", "args": [{"$ref": label}], "kw": kw,
                    "as": "o%d" % number}
            self.judge(step, {"on": step}, label)
            self.objects.append(("o%d" % number, "c", True, spec))
        elif kind == "change":
            if not owned:
                return
            self.changed = label
            fields = CONTROL_FIELDS if which == "c" else SEQUENCE_FIELDS
            if op["field"] == 4:
                self.field = "name"
                self.steps.append({"op": "setattr", "obj": label, "name": "name", "value": "renamed"})
                return
            field = self.field = fields[op["field"]]
            self.steps.append({"op": "change", "obj": label, "name": field, "index": op["i"], "whole": op["whole"]})


def rebuild(snapshot, label, kind):
    """A step that builds an object with the contents of a snapshot."""
    fields = snapshot["fields"]

    def content(value):
        return {"$arr": value["a"], "dtype": value["dtype"]} if isinstance(value, dict) else value

    kw = {k: content(v) for k, v in fields.items()}
    if kind == "strided":
        for k, v in kw.items():
            if isinstance(v, dict):
                kw[k] = {"$strided": v["$arr"]}
    return {"op": "call", "fn": snapshot["obj"], "kw": kw, "as": label}


NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return gen.close(float(a), float(b), 1e-12, 1e-300)
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return True
        if NUMBER.sub("#", a) != NUMBER.sub("#", b):
            return False
        return all(gen.close(float(x), float(y), 1e-9, 1e-300) for x, y in zip(NUMBER.findall(a), NUMBER.findall(b)))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return False


def compare_state(before, after):
    before, after = gen.table(before["ok"]), gen.table(after["ok"])
    for key in before:
        if before[key] != after[key]:
            fail("a process-wide setting changed", setting=key, before=before[key][:300], after=after[key][:300])


def check(ctx, case):
    plan = Plan(ctx, case)
    clean = [{"op": "remove", "path": ctx.path(n)} for n in ("file-one", "file-two", "refused")]
    ambient = [case["ambient"]] if case["ambient"] else []
    state, files = [{"op": "globals"}], [{"op": "ls", "path": ctx.scratch}]
    (results,) = ctx.run_isolated([ambient + clean + files + state + plan.steps + state + clean + files])
    start = len(ambient) + len(clean) + 1
    compare_state(results[start], results[-2 - len(clean)])
    if results[start - 1] != results[-1]:
        fail("other files than the requested ones were written", before=results[start - 1]["ok"],
             after=results[-1]["ok"])
    results = results[start + 1:]

    # nothing changes unless its owner changes it
    known = {}
    content_before = []
    for changed, field, places in plan.snapshots:
        content_before.append(dict(known))
        for label, place in places.items():
            now = results[place].get("ok")
            if label in known and known[label] is not None and label != changed and now != known[label]:
                fail("an object changed although nobody changed it", object=label,
                     before=known[label], after=now)
            if label == changed and known[label] is not None:
                for key, value in known[label]["fields"].items():
                    if key != field and now["fields"][key] != value:
                        fail("changing one field of an object changed another one", changed=field, other=key,
                             before=value, after=now["fields"][key])
            known[label] = now
    for place, content in plan.final_inputs:
        now = results[place]["ok"]
        if isinstance(now, dict):
            now = now.get("a", now.get("t"))
        if [float(v) for v in now] != [float(v) for v in content]:
            fail("an array of the caller changed", before=content, after=now)

    # every result can be obtained alone
    programs, compared = [], []
    for number, index, what, label in plan.judged:
        result = results[index]
        if "skip" in result:
            continue
        if label is not None:
            snapshot = content_before[number].get(label)
            if snapshot is None:
                continue
            spec = next(o for o in plan.objects if o[0] == label)[3]
            origin = "strided" if spec.get("kind") == "strided" and label in strided_labels(plan) else None
            prepare = [rebuild(snapshot, label, origin)]
        if "steps" in what:
            programs.append(what["steps"])
            compared.append((result, -1))
        elif "on" in what:
            programs.append(prepare + [what["on"]])
            compared.append((result, -1))
        else:
            programs.append(prepare + clean[:2] + [what["file"], {"op": "read", "path": what["path"]}] + clean[:2])
            if "exc" in results[what["at"]]:
                compared.append((results[what["at"]], -4))
            else:
                compared.append((result, -3))
    for (result, place), alone in zip(compared, ctx.run_isolated([ambient + p for p in programs])):
        alone = alone[len(ambient):]
        if len(alone) > 1 and "exc" in alone[0]:
            continue  # the owner changed it to something that cannot be built
        other = alone[place]
        if place in (-4, -1) and "exc" in result:
            expected = {k: other.get("exc", {}).get(k) for k in ("type", "str")}
            if not same({k: result["exc"][k] for k in ("type", "str")}, expected):
                fail("a refusal depends on what happened before", got=result["exc"]["str"][:500],
                     alone=str(other)[:500])
        elif not same(result, other):
            fail("a result depends on what happened before", got=str(result)[:800], alone=str(other)[:800])
    kinds = {op["k"] for op in case["ops"]}
    if len(compared) < 2:
        return False
    return "%d judged%s%s" % (
        min(len(compared), 10), ", changed" if "change" in kinds else "", ", spoiled" if "spoil" in kinds else "")


def strided_labels(plan):
    return {o[0] for o in plan.objects if o[3].get("kind") == "strided" and not o[2]}


# ----- the same thing twice ---------------------------------------------------


@st.composite
def twice(draw, ctx):
    maker = draw(st.sampled_from([scheme_spec, preset_spec, scheme_spec, preset_spec, sequence_spec, control_spec]))
    spec = draw(maker(ctx))
    return {
        "spec": spec,
        "how": draw(st.sampled_from(["zero", "reverse", "other"])),
        "between": draw(st.sampled_from(["nothing", "texts", "refusal", "variation"])),
        "variation": draw(variation(ctx, spec)),
    }


def twice_steps(case, ctx, spoil):
    """
    Builds an object, uses it in every way, overwrites everything obtained
    (if asked to), and does all of it again.
    """
    spec = case["spec"]
    steps = []
    kept = []
    results = []
    for turn in ("first", "second"):
        kw = {k: gen.wrap(v, spec["kind"]) if isinstance(v, list) else v for k, v in spec["kw"].items()}
        uses = [{"op": "call", "fn": spec["fn"], "kw": kw, "as": turn}]
        if spec["type"] == "s":
            uses.append({"op": "call", "fn": "convert_dds_to_driven_control", "args": [{"$ref": turn}],
                         "kw": spec["limits"], "as": turn + " control"})
            uses.append({"op": "method", "obj": turn, "name": "export", "as": turn + " plot"})
            control = turn + " control"
        else:
            control = turn
        for name in DERIVED:
            uses.append({"op": "get", "obj": control, "name": name, "as": turn + " " + name})
        for coordinates in ("cartesian", "cylindrical"):
            uses.append({"op": "method", "obj": control, "name": "export", "kw": {"coordinates": coordinates},
                         "as": turn + " " + coordinates})
        uses += [{"op": "str", "obj": turn}, {"op": "repr", "obj": turn}]
        for use in uses:
            results.append(len(steps))
            steps.append(use)
        if turn == "first":
            if spoil:
                for use in reversed(uses):
                    if "as" in use:
                        steps.append({"op": "mutate", "obj": use["as"], "how": case["how"]})
            if case["between"] == "refusal":
                steps.append(dict(BAD_CALLS[0], op="call"))
            elif case["between"] == "variation":
                other = case["variation"]
                steps.append({"op": "call", "fn": other["fn"], "kw": other["kw"], "as": "other"})
                steps.append({"op": "str", "obj": "other"})
    half = len(results) // 2
    return steps, results[:half], results[half:]


def check_twice(ctx, case):
    steps, first, second = twice_steps(case, ctx, True)
    state = [{"op": "globals"}]
    (results,) = ctx.run_isolated([state + steps + state])
    compare_state(results[0], results[-1])
    results = results[1:]
    for a, b in zip(first, second):
        if not same(results[a], results[b]):
            fail("a result differs when it is obtained again", step=steps[b],
                 first=str(results[a])[:800], second=str(results[b])[:800])
    return case["spec"]["fn"]


# ----- one field at a time ----------------------------------------------------


@st.composite
def fields(draw, ctx):
    maker = draw(st.sampled_from([scheme_spec, preset_spec, control_spec, control_spec, sequence_spec]))
    spec = draw(maker(ctx))
    names = CONTROL_FIELDS if spec["type"] == "c" else SEQUENCE_FIELDS
    return {
        "spec": spec,
        "convert": spec["type"] == "s" and draw(st.booleans()),
        "changes": [[name, draw(st.integers(0, 20))] for name in draw(st.permutations(names))],
    }


def check_fields(ctx, case):
    spec = case["spec"]
    kw = {k: gen.wrap(v, spec["kind"]) if isinstance(v, list) else v for k, v in spec["kw"].items()}
    steps = [{"op": "call", "fn": spec["fn"], "kw": kw, "as": "o"}]
    objects = ["o"]
    if case["convert"]:
        steps.append({"op": "call", "fn": "convert_dds_to_driven_control", "args": [{"$ref": "o"}],
                      "kw": spec["limits"], "as": "p"})
        objects.append("p")
    look = [{"op": "snap", "obj": label} for label in objects]
    steps += look
    for name, index in case["changes"]:
        steps.append({"op": "change", "obj": "o", "name": name, "index": index, "whole": False})
        steps += look
    results = ctx.run(steps)[len(objects):]
    if any("ok" not in r for r in results[: len(objects)]):
        return False  # acceptance is judged elsewhere
    before = [r["ok"] for r in results[: len(objects)]]
    place = len(objects)
    for name, _ in case["changes"]:
        after = [r["ok"] for r in results[place + 1: place + 1 + len(objects)]]
        place += 1 + len(objects)
        for key, value in before[0]["fields"].items():
            if key != name and after[0]["fields"][key] != value:
                fail("changing one field of an object changed another one", changed=name, other=key,
                     before=value, after=after[0]["fields"][key])
        if before[1:] != after[1:]:
            fail("changing a sequence changed a control obtained from it", changed=name,
                 before=before[1], after=after[1])
        before = after
    return spec["fn"] + (" converted" if case["convert"] else "")


COMPONENTS = [
    Component("fields", check_fields,
              "each field of a built object changed in place; non-trivial: all",
              strategy=fields, quick=1600),
    Component("twice", check_twice,
              "building, converting, deriving, exporting and printing the same thing twice in a pristine process, after overwriting all first results; non-trivial: all",
              strategy=twice, quick=2400),
    Component("histories", check,
              "histories of building, deriving, printing, exporting, converting, refusing, changing and spoiling results, each result also obtained alone in a pristine process; non-trivial: at least two judged results",
              strategy=strategy, quick=1600, thorough=16000),
]
