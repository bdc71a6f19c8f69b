"""
Strategies shared by the properties. Every generated case is plain JSON.
"""
import functools
import math

from hypothesis import strategies as st

from . import consts

PI = math.pi


def variants(value):
    """A dictionary value and things that are commonly derived from it."""
    return [
        value,
        value * (1 + 1e-6),
        value * (1 - 1e-6),
        value * 1.5,
        value * PI,
        2 * PI * value,
        1 / value,
    ]


def dictionary(ctx, low, high):
    values = []
    for value in ctx.consts["floats"]:
        for variant in variants(value):
            if low <= variant <= high:
                values.append(variant)
    return sorted(set(values))


def positive(ctx, low, high, nice=()):
    """Log-uniform in [low, high], with round numbers and source constants."""
    options = []
    nice = [v for v in tuple(nice) + (1.0, 2.0, 0.5, 10.0, 0.1, PI, 2 * PI) if low <= v <= high]
    if nice:
        options.append(st.sampled_from(nice))
    options.append(
        st.floats(math.log10(low), math.log10(high)).map(
            lambda e: min(high, max(low, 10.0 ** e))
        )
    )
    options.append(st.floats(low, high))
    words = dictionary(ctx, low, high)
    if words:
        options.append(st.sampled_from(words))
    return st.one_of(options)


def log_uniform(low, high):
    return st.floats(math.log10(low), math.log10(high)).map(
        lambda e: min(high, max(low, 10.0 ** e))
    )


def azimuth(ctx):
    eighths = [k * PI / 4 for k in range(-16, 17)]
    words = [s * v for v in dictionary(ctx, 1e-3, 50.0) for s in (1, -1)]
    # products with azimuths next to the smallest numbers lose their digits
    visible = lambda v: v if abs(v) > 1e-100 else 0.0
    return st.one_of(
        st.sampled_from([0.0, PI / 2, PI, -PI / 2]),
        st.floats(-PI, PI).map(visible),
        st.sampled_from(eighths),
        st.floats(-60.0, 60.0).map(visible),
        st.sampled_from(words) if words else st.just(1.0),
        st.tuples(st.one_of(log_uniform(1e-12, 1e-2), log_uniform(60.0, 1e5)), st.sampled_from([1, -1])).map(
            lambda p: p[0] * p[1]
        ),
    )


def size(ctx, low, high, largest=70000):
    """
    Lengths of long lists; those next to the source's integers may be larger
    than the others.
    """
    words = sorted({n + d for n in ctx.consts["integers"] for d in (-1, 0, 1, 2) if low <= n + d <= largest})
    options = [st.integers(low, min(high, 4 * low)), st.integers(low, high)]
    near = [n for n in words if n <= 2 * high]
    if near:
        options.append(st.sampled_from(near))
    options = options * 4
    if len(words) > len(near):
        options.append(st.sampled_from(words[len(near):]))
    return st.one_of(options)


def count(ctx, low, high, soft=12, strict=False):
    """
    Integers, mostly small, with the source's integers and their neighbours
    (these up to four times the limit, unless it is strict).
    """
    words = sorted(
        {
            n + d
            for n in ctx.consts["integers"]
            for d in (-1, 0, 1)
            if low <= n + d <= (high if strict else 4 * high)
        }
    )
    options = [
        st.integers(low, min(high, soft)),
        st.integers(low, high),
        st.integers(low, min(high, max(low, soft * 5))),
    ]
    if words:
        options.append(st.sampled_from(words))
    return st.one_of(options)


NAMES = [
    None,
    "",
    "a",
    "my control",
    "0",
    "None",
    'quote " and \' and \\ back',
    "comma, semicolon; tab\t",
    "ünïcødé π",
    "{}{0}%s",
    "line\nbreak",
    " padded ",
    "long " * 60,
    "x" * 1025,
    "\x00\x1b\x7f",
    "\u2028\u200f\U0001f600",
    "\ud800",
    "1.0",
    "[1,2]",
    "= : x pi",
    "two  spaces",
    "tabs\t\tinside",
    "\r\nboth",
    "#Name(x=1.0)",
    "a.b-c_d/e",
    "no. 12 of 3e-7",
]


@functools.lru_cache(None)
def name(newline=True):
    plain = [n for n in NAMES if newline or n is None or "\n" not in n]
    symbols = st.sampled_from(list("  \t'\"\\{}[]():=,;#%.-_aBπ0") + (["\n"] if newline else []))
    alphabet = st.characters(
        codec="utf-8", categories=("L", "N", "P", "S", "Zs"), exclude_characters="" if newline else "\n"
    )
    words, compared = (
        [w + end for w in consts.harvest()[key] for end in ("", "x") if newline or "\n" not in w]
        for key in ("words", "compared")
    )
    return st.one_of(
        st.none(), st.sampled_from(plain), st.sampled_from(words or plain), st.sampled_from(compared or plain),
        st.text(alphabet=alphabet, max_size=12), st.text(alphabet=symbols, max_size=20)
    )


@functools.lru_cache(None)
def _words():
    return st.one_of([st.sampled_from(consts.harvest()[key] or [""]) for key in ("words", "compared")])


def bad_word(good):
    return st.one_of(
        st.sampled_from(["", "csv", "json", "XML", "Cartesian", "CYLINDRICAL", "polar", "Q-CTRL", "q-ctrl expanded",
                         "CSV ", "cartesian,", "None", "default"]),
        _words(),
        st.text(max_size=8),
    ).filter(lambda w: w not in good)


KINDS = ["list", "array", "tuple", "strided", "readonly"]


def containers(integral=False):
    kinds = list(KINDS)
    if integral:
        kinds += ["ints", "intarray"]
    return st.sampled_from(kinds)


def wrap(values, kind):
    """A JSON description of the container that the worker will build."""
    if kind == "array":
        return {"$arr": list(values), "dtype": "float64"}
    if kind == "float32":
        return {"$arr": list(values), "dtype": "float32"}
    if kind == "intarray":
        return {"$arr": [int(v) for v in values], "dtype": "int64"}
    if kind == "ints":
        return [int(v) for v in values]
    if kind == "tuple":
        return {"$tuple": list(values)}
    if kind == "strided":
        return {"$strided": list(values)}
    if kind == "readonly":
        return {"$readonly": list(values)}
    return list(values)


def close(a, b, rel=1e-9, absolute=0.0):
    if a == b:
        return True
    if not (math.isfinite(a) and math.isfinite(b)):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), absolute)


def all_close(xs, ys, rel=1e-9, absolute=0.0):
    return len(xs) == len(ys) and all(close(x, y, rel, absolute) for x, y in zip(xs, ys))


def same_phase(a, b, tolerance=1e-9):
    """Angles equal modulo a full turn."""
    difference = math.fmod(a - b, 2 * PI)
    difference = min(abs(difference), 2 * PI - abs(difference))
    return difference <= tolerance * max(1.0, abs(a), abs(b))


def same_angle(a, b, tolerance=1e-9):
    """Angles equal, full turns included."""
    return abs(a - b) <= tolerance * max(1.0, abs(a), abs(b))


# ----- answers of the worker -------------------------------------------------


def values(encoded):
    """Numbers of an encoded 1D array (or list)."""
    if isinstance(encoded, dict) and "a" in encoded:
        return encoded["a"]
    if isinstance(encoded, list):
        return encoded
    raise TypeError(encoded)


def table(encoded):
    """Python dictionary from an encoded one."""
    return {k: v for k, v in encoded["d"]}


class Control:
    def __init__(self, encoded):
        fields = encoded["fields"]
        self.durations = values(fields["durations"])
        self.rabi = values(fields["rabi_rates"])
        self.azimuth = values(fields["azimuthal_angles"])
        self.detuning = values(fields["detunings"])
        self.name = fields["name"]

    @property
    def segments(self):
        return list(zip(self.rabi, self.azimuth, self.detuning, self.durations))


class Sequence:
    def __init__(self, encoded):
        fields = encoded["fields"]
        self.duration = fields["duration"]
        self.offsets = values(fields["offsets"])
        self.rabi = values(fields["rabi_rotations"])
        self.azimuth = values(fields["azimuthal_angles"])
        self.detuning = values(fields["detuning_rotations"])
        self.name = fields["name"]

    @property
    def pulses(self):
        return list(zip(self.offsets, self.rabi, self.azimuth, self.detuning))


def is_object(result, kind):
    return (
        isinstance(result.get("ok"), dict) and result["ok"].get("obj") == kind
    )


def expect_control(fail, result, what="the call"):
    if "exc" in result:
        fail(what + " was refused or failed", error=result["exc"]["type"], text=result["exc"]["str"][:500])
    if not is_object(result, "DrivenControl"):
        fail(what + " did not return a driven control", got=str(result)[:300])
    control = Control(result["ok"])
    lengths = {len(control.durations), len(control.rabi), len(control.azimuth), len(control.detuning)}
    if len(lengths) != 1:
        fail(what + " returned a control with fields of different lengths")
    return control


def expect_sequence(fail, result, what="the call"):
    if "exc" in result:
        fail(what + " was refused or failed", error=result["exc"]["type"], text=result["exc"]["str"][:500])
    if not is_object(result, "DynamicDecouplingSequence"):
        fail(what + " did not return a sequence", got=str(result)[:300])
    sequence = Sequence(result["ok"])
    lengths = {len(sequence.offsets), len(sequence.rabi), len(sequence.azimuth), len(sequence.detuning)}
    if len(lengths) != 1:
        fail(what + " returned a sequence with fields of different lengths")
    return sequence


def expect_refusal(fail, result, what):
    if "ok" in result:
        fail(what + " was accepted")
    if not result["exc"]["argument_error"]:
        fail(
            what + " was not refused with the argument error",
            error=result["exc"]["type"],
            text=result["exc"]["str"][:300],
        )


def expect_ok(fail, result, what):
    if "exc" in result:
        fail(what + " failed", error=result["exc"]["type"], text=result["exc"]["str"][:500])
    return result["ok"]
