from hypothesis import strategies as st

from .. import conv, ctrl, gen, presets, schemes
from ..core import Component, fail

ASSUMPTIONS = [
    "numbers are given as Python or 64-bit numpy numbers; integers only where the value is one",
]

DERIVED = ["amplitude_x", "amplitude_y", "angles", "directions", "times", "duration", "maximum_rabi_rate",
           "maximum_detuning", "maximum_duration", "minimum_duration", "number_of_segments"]

# documented order of the parameters and defaults of the optional ones
SIGNATURES = {
    "DrivenControl": (
        ["durations", "rabi_rates", "azimuthal_angles", "detunings", "name"],
        {"rabi_rates": None, "azimuthal_angles": None, "detunings": None, "name": None},
    ),
    "DynamicDecouplingSequence": (
        ["duration", "offsets", "rabi_rotations", "azimuthal_angles", "detuning_rotations", "name"],
        {"name": None},
    ),
    "convert": (
        ["dynamic_decoupling_sequence", "maximum_rabi_rate", "maximum_detuning_rate",
         "minimum_segment_duration", "name"],
        {"minimum_segment_duration": 0.0, "name": None},
    ),
    "preset": (
        ["rabi_rotation", "maximum_rabi_rate", "azimuthal_angle", "name"],
        {"azimuthal_angle": 0.0, "name": None},
    ),
    "gaussian": (
        ["maximum_rabi_rate", "minimum_segment_duration", "duration", "modulation_frequency"],
        {},
    ),
    "control export": (
        ["coordinates", "dimensionless_rabi_rate"],
        {"coordinates": "cylindrical", "dimensionless_rabi_rate": True},
    ),
    "control file": (
        ["filename", "file_format", "file_type", "coordinates"],
        {"file_format": "Q-CTRL expanded", "file_type": "CSV", "coordinates": "cylindrical"},
    ),
    "sequence file": (
        ["filename", "file_format", "file_type", "coordinates", "maximum_rabi_rate", "maximum_detuning_rate"],
        {"file_format": "Q-CTRL expanded", "file_type": "CSV", "coordinates": "cylindrical",
         "maximum_rabi_rate": 6.283185307179586, "maximum_detuning_rate": 6.283185307179586},
    ),
}
for _scheme in schemes.ALL:
    SIGNATURES[_scheme] = (
        ["duration"] + schemes.COUNTS[_scheme] + ["pre_post_rotation", "name"],
        {"pre_post_rotation": False, "name": None},
    )


@st.composite
def number_form(draw, value):
    """The same number in another type."""
    forms = ["float", "float64"]
    if float(value).is_integer() and abs(value) < 2 ** 53:
        forms += ["int", "int64"]
    form = draw(st.sampled_from(forms))
    if form == "float":
        return float(value)
    if form == "int":
        return int(value)
    return {"$np": [form, int(value) if form == "int64" else float(value)]}


@st.composite
def other_form(draw, value):
    if isinstance(value, bool):
        return draw(st.sampled_from([value, {"$np": ["bool_", value]}]))
    if isinstance(value, (int, float)):
        return draw(number_form(value))
    if isinstance(value, list):
        whole = all(float(v).is_integer() and abs(v) < 2 ** 53 for v in value)
        return gen.wrap(value, draw(gen.containers(integral=whole)))
    return value


@st.composite
def rounded(draw, value):
    """Often a whole number, so that integers are tried."""
    if isinstance(value, float) and 1 <= abs(value) < 1e15 and draw(st.integers(0, 2)) == 0:
        return float(round(value))
    return value


@st.composite
def call(draw, ctx):
    """
    {"setup": steps, "what": key of SIGNATURES, "full": all arguments, "given":
    arguments of the second call in another form, "positional": how many}
    """
    what = draw(st.sampled_from(
        ["DrivenControl", "DynamicDecouplingSequence", "convert", "preset", "gaussian", "scheme", "scheme",
         "control export", "control file", "sequence file"]))
    setup, target, fn = [], None, what
    if what == "DrivenControl":
        case = draw(ctrl.control(ctx, most=4))
        full = {"durations": case["durations"], "rabi_rates": case["rabi"],
                "azimuthal_angles": case["az"], "detunings": case["det"], "name": case["name"]}
        if draw(st.booleans()):
            full = {k: [float(min(10 ** 9, round(x)) or 1) for x in v] if isinstance(v, list) else v
                    for k, v in full.items()}
    elif what == "DynamicDecouplingSequence":
        case = draw(ctrl.sequence(ctx, most=4))
        full = {"duration": case["T"], "offsets": case["offsets"], "rabi_rotations": case["rabi"],
                "azimuthal_angles": case["az"], "detuning_rotations": case["det"], "name": case["name"]}
        if draw(st.booleans()):
            case = draw(conv.integral(ctx))
            full = {"duration": float(case["T"]), "offsets": [float(v) for v in case["offsets"]],
                    "rabi_rotations": [float(v) for v in case["rabi"]],
                    "azimuthal_angles": [float(v) for v in case["az"]],
                    "detuning_rotations": [float(v) for v in case["det"]], "name": None}
    elif what in ("convert", "sequence file"):
        case = draw(st.one_of(conv.convertible(ctx, 4), conv.integral(ctx)))
        setup = [conv.sequence_step(case, "o", name=case["name"])]
        if what == "convert":
            full = {"dynamic_decoupling_sequence": {"$ref": "o"}, "maximum_rabi_rate": float(case["R"]),
                    "maximum_detuning_rate": float(case["D"]),
                    "minimum_segment_duration": draw(st.sampled_from([0.0, float(case["m"])])),
                    "name": draw(gen.name())}
        else:
            fast = draw(st.sampled_from([1.0, 3.0, 100.0]))
            full = {"filename": None, "file_format": "Q-CTRL expanded",
                    "file_type": draw(st.sampled_from(["CSV", "JSON"])),
                    "coordinates": draw(st.sampled_from(["cylindrical", "cartesian"])),
                    "maximum_rabi_rate": draw(st.sampled_from([case["R"] * fast, 6.283185307179586])),
                    "maximum_detuning_rate": draw(st.sampled_from([case["D"] * fast, 6.283185307179586]))}
    elif what in ("control export", "control file"):
        setup = [ctrl.step(draw(ctrl.control(ctx, most=4)), "o")]
        if what == "control export":
            full = {"coordinates": draw(st.sampled_from(["cylindrical", "cartesian"])),
                    "dimensionless_rabi_rate": draw(st.booleans())}
        else:
            full = {"filename": None, "file_format": "Q-CTRL expanded",
                    "file_type": draw(st.sampled_from(["CSV", "JSON"])),
                    "coordinates": draw(st.sampled_from(["cylindrical", "cartesian"]))}
    elif what == "preset":
        case = draw(presets.valid(ctx, names=False))
        fn = case["fn"]
        full = dict(case["kw"], name=draw(gen.name()))
        if case["scheme"] not in presets.DISCRETE:
            full["rabi_rotation"] = draw(rounded(full["rabi_rotation"]))
        for key in ("maximum_rabi_rate", "azimuthal_angle"):
            full[key] = draw(st.one_of(rounded(full[key]), st.integers(1, 40).map(float)))
        if draw(st.booleans()):
            full["azimuthal_angle"] = 0.0
    elif what == "gaussian":
        full = draw(presets.gaussian(ctx, 40))
        if draw(st.booleans()):
            full = {"maximum_rabi_rate": float(draw(st.integers(26, 90))),
                    "minimum_segment_duration": float(draw(st.integers(1, 3))),
                    "duration": float(draw(st.integers(4, 40))),
                    "modulation_frequency": float(draw(st.integers(-3, 3)))}
        fn = "new_modulated_gaussian_control"
    else:
        case = draw(schemes.request(ctx, names=False))
        what = case["scheme"]
        fn = "new_%s_sequence" % what
        full = dict(case["kw"], pre_post_rotation=draw(st.booleans()), name=draw(gen.name()))
        full["duration"] = draw(st.one_of(st.just(full["duration"]), st.integers(1, 99).map(float)))
        for key in schemes.COUNTS[what]:
            full[key] = min(full[key], 300 if key != "concatenation_order" else 4)
            if what == "quadratic":
                full[key] = min(full[key], 12)
    order, defaults = SIGNATURES[what]
    positional = draw(st.integers(0, len(order)))
    given = {}
    for i, key in enumerate(order):
        value = full[key]
        if i >= positional and key in defaults and defaults[key] == value and draw(st.integers(0, 2)) > 0:
            continue
        given[key] = draw(other_form(value))
    shuffled = draw(st.permutations([k for k in order[positional:] if k in given]))
    return {"what": what, "fn": fn, "setup": setup, "full": full, "given": given,
            "positional": positional, "order": shuffled}


def check(ctx, case):
    order, _ = SIGNATURES[case["what"]]
    full, given = dict(case["full"]), dict(case["given"])
    is_file = case["what"].endswith("file")
    if is_file:
        full["filename"], given["filename"] = ctx.path("one.out"), ctx.path("two.out")
    plain = {"kw": full}
    varied = {
        "args": [given[k] for k in order[: case["positional"]]],
        "kw": {k: given[k] for k in case["order"]},
    }
    if case["what"] in ("control export", "control file", "sequence file"):
        name = "export" if case["what"] == "control export" else "export_to_file"
        head = {"op": "method", "obj": "o", "name": name}
    else:
        fn = "convert_dds_to_driven_control" if case["what"] == "convert" else case["fn"]
        head = {"op": "call", "fn": fn}
    steps = case["setup"] + [dict(head, **plain), dict(head, **varied)]
    if is_file:
        clean = [{"op": "remove", "path": full["filename"]}, {"op": "remove", "path": given["filename"]}]
        steps = clean + steps + [
            {"op": "read", "path": full["filename"]},
            {"op": "read", "path": given["filename"]},
        ] + clean
        results = ctx.run(steps)
        one, two, first, second = results[-6:-2]
    else:
        one, two = ctx.run(steps)[-2:]
        first = second = None
    shown = {"args": str(varied["args"])[:400], "kw": str(varied["kw"])[:400]}
    if ("exc" in one) != ("exc" in two):
        fail("accepted in one form and refused in another",
             text=str((one.get("exc") or two.get("exc"))["str"])[:300], **shown)
    if "exc" in one:
        if not (one["exc"]["argument_error"] and two["exc"]["argument_error"]):
            fail("another error than the argument error", error=one["exc"]["type"], other=two["exc"]["type"], **shown)
        return False
    if first != second:
        fail("the files differ", one=str(first)[:300], other=str(second)[:300], **shown)
    compare(one["ok"], two["ok"], "", shown)
    forms = "positional" if case["positional"] else "keywords"
    return "%s %s" % (case["what"] if case["what"] not in schemes.ALL else "scheme", forms)


def compare(a, b, path, shown):
    """Equal to rounding; the kind of number is not compared."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            fail("results of different kinds", at=path, one=str(a)[:200], other=str(b)[:200], **shown)
        for key in a:
            if key != "dtype":
                compare(a[key], b[key], path + "." + str(key), shown)
    elif isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            fail("results of different lengths", at=path, one=str(a)[:200], other=str(b)[:200], **shown)
        for x, y in zip(a, b):
            compare(x, y, path, shown)
    elif isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if not gen.close(a, b, 1e-9, 1e-300):
            fail("different results", at=path, one=a, other=b, **shown)
    elif a != b:
        fail("different results", at=path, one=str(a)[:200], other=str(b)[:200], **shown)


@st.composite
def later(draw, ctx):
    """The same object built in two forms, and what is done with it."""
    what = draw(st.sampled_from(["s", "s", "c"]))
    if what == "s":
        case = draw(st.one_of(conv.integral(ctx), conv.integral(ctx), conv.convertible(ctx, 4)))
        fn = "DynamicDecouplingSequence"
        full = {"duration": float(case["T"]), "offsets": [float(v) for v in case["offsets"]],
                "rabi_rotations": [float(v) for v in case["rabi"]],
                "azimuthal_angles": [float(v) for v in case["az"]],
                "detuning_rotations": [float(v) for v in case["det"]]}
        kw = {"maximum_rabi_rate": case["R"], "maximum_detuning_rate": case["D"],
              "minimum_segment_duration": case["m"]}
        steps = [{"op": "call", "fn": "convert_dds_to_driven_control", "args": [{"$ref": "o"}], "kw": kw},
                 {"op": "method", "obj": "o", "name": "export"}]
    else:
        case = draw(ctrl.control(ctx, most=4))
        fn = "DrivenControl"
        full = {"durations": case["durations"], "rabi_rates": case["rabi"],
                "azimuthal_angles": case["az"], "detunings": case["det"]}
        if draw(st.integers(0, 2)):
            full = {k: [float(min(10 ** 6, round(abs(x))) or 1) for x in v] if v is not None else v
                    for k, v in full.items()}
        steps = [{"op": "get", "obj": "o", "name": name} for name in DERIVED]
        steps += [{"op": "method", "obj": "o", "name": "export", "kw": {"coordinates": c}}
                  for c in ("cylindrical", "cartesian")]
    full = {k: v for k, v in full.items() if v is not None}
    return {"fn": fn, "full": full, "given": {k: draw(other_form(v)) for k, v in full.items()}, "steps": steps}


def check_later(ctx, case):
    runs = []
    for kw in (case["full"], case["given"]):
        results = ctx.run([{"op": "call", "fn": case["fn"], "kw": kw, "as": "o"}] + case["steps"])
        runs.append(results)
    shown = {"given": str(case["given"])[:400]}
    for step, one, two in zip(case["steps"], runs[0][1:], runs[1][1:]):
        name = step.get("name") or step.get("fn")
        if "exc" in one or "exc" in two:
            error = (one.get("exc") or two.get("exc"))
            fail("a valid object is not usable", what=name, error=error["type"], text=error["str"][:300], **shown)
        compare(one["ok"], two["ok"], name, shown)
    return case["fn"] if case["full"] != case["given"] else False


def systematic(ctx):
    """Every call with each optional argument left out, all of them left out, and all arguments by position."""
    sequence = {"T": 10.0, "offsets": [2.0, 5.0, 8.5], "rabi": [3.0, 0.0, 1.0], "az": [0.5, 0.0, -1.0],
                "det": [0.0, -2.0, 0.0], "kind": "list"}
    control = {"durations": [1.0, 2.0], "rabi": [3.0, 1.5], "az": [0.5, -2.0], "det": [-1.0, 4.0],
               "kind": "list"}
    calls = []
    for what, (order, defaults) in sorted(SIGNATURES.items()):
        setup, fns, bases = [], [what], [{}]
        if what == "DrivenControl":
            bases = [{"durations": [1.0, 2.0]},
                     {"durations": [1.0, 2.0], "rabi_rates": [3.0, 1.5], "azimuthal_angles": [0.5, -2.0],
                      "detunings": [-1.0, 4.0], "name": "a"}]
        elif what == "DynamicDecouplingSequence":
            bases = [{"duration": 10.0, "offsets": [2.0, 5.0], "rabi_rotations": [3.0, 0.5],
                      "azimuthal_angles": [0.5, 7.0], "detuning_rotations": [1.0, -2.0], "name": name}
                     for name in (None, "a")]
        elif what == "convert":
            setup = [conv.sequence_step(sequence, "o", name="other")]
            bases = [{"dynamic_decoupling_sequence": {"$ref": "o"}, "maximum_rabi_rate": 5.0,
                      "maximum_detuning_rate": 7.0, "minimum_segment_duration": m, "name": name}
                     for m, name in ((0.0, None), (0.7, "a"))]
        elif what == "preset":
            fns = ["new_%s_control" % scheme for scheme in presets.ALL]
            bases = [{"rabi_rotation": presets.DISCRETE_ANGLES[1], "maximum_rabi_rate": 2.0, "azimuthal_angle": a,
                      "name": name} for a, name in ((0.0, None), (0.7, "a"))]
        elif what == "gaussian":
            fns = ["new_modulated_gaussian_control"]
            bases = [{"maximum_rabi_rate": 50.0, "minimum_segment_duration": 0.2, "duration": 3.0,
                      "modulation_frequency": f} for f in (0.0, 1.5)]
        elif what == "control export":
            setup = [ctrl.step(control, "o")]
            bases = [{"coordinates": c, "dimensionless_rabi_rate": d}
                     for c in ("cylindrical", "cartesian") for d in (True, False)]
        elif what == "control file":
            setup = [ctrl.step(control, "o")]
            bases = [{"filename": None, "file_format": "Q-CTRL expanded", "file_type": t, "coordinates": c}
                     for t in ("CSV", "JSON") for c in ("cylindrical", "cartesian")]
        elif what == "sequence file":
            setup = [conv.sequence_step(sequence, "o", name="a")]
            bases = [{"filename": None, "file_format": "Q-CTRL expanded", "file_type": t, "coordinates": c,
                      "maximum_rabi_rate": r, "maximum_detuning_rate": d}
                     for t in ("CSV", "JSON") for c in ("cylindrical", "cartesian")
                     for r in (6.283185307179586, 5.0) for d in (6.283185307179586, 7.0)]
        else:
            fns = ["new_%s_sequence" % what]
            bases = [dict({key: 3 - i for i, key in enumerate(schemes.COUNTS[what])}, duration=2.0,
                          pre_post_rotation=framing, name=name)
                     for framing, name in ((False, None), (False, "a"), (True, None), (True, "a"))
                     if not (what == "xy_concatenated" and framing)]
            if what == "xy_concatenated":
                bases.append({"duration": 2.0, "concatenation_order": 2, "pre_post_rotation": True, "name": "a"})
        for fn in fns:
            for base in bases:
                full = dict({k: v for k, v in defaults.items() if k not in base}, **base)
                left_out = [k for k in order if k in defaults and full[k] == defaults[k]]
                for omitted in [[k] for k in left_out] + [left_out]:
                    given = {k: v for k, v in full.items() if k not in omitted}
                    calls.append({"what": what, "fn": fn, "setup": setup, "full": full, "given": given,
                                  "positional": 0, "order": [k for k in reversed(order) if k in given]})
                for positional in range(1, len(order) + 1):
                    calls.append({"what": what, "fn": fn, "setup": setup, "full": full, "given": full,
                                  "positional": positional, "order": order[positional:]})
    return calls


def check_systematic(ctx, case):
    outcome = check(ctx, case)
    if outcome is False:
        fail("a valid call was refused", what=case["what"], fn=case["fn"])
    return outcome


COMPONENTS = [
    Component("systematic", check_systematic,
              "every call with each default left out and with every number of positional arguments; non-trivial: all",
              cases=systematic),
    Component("objects", check_later,
              "controls and sequences built from floats in lists and from other number and container types, then derived from, exported and converted; non-trivial: the forms differ",
              strategy=later, quick=2400),
    Component("forms", check,
              "each call twice: all arguments by keyword as floats and lists, then by position, with defaults left out and in other number and container types; non-trivial: accepted",
              strategy=call, quick=12000),
]
