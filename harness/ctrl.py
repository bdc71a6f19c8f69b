"""
Driven controls and sequences as data, and the steps that build them.

A control case is {"durations", "rabi", "az", "det", "name", "kind"} where rabi,
az and det may be None (omitted).
"""
import math

from hypothesis import strategies as st

from . import gen

PI = math.pi


def _values(ctx, low, high, signed, zero, exact=True):
    base = gen.log_uniform(low, high)
    options = [base, st.floats(low, high)]
    nice = [v for v in (1.0, 2.0, 3.0, 0.5, 10.0, PI, 2 * PI) if low <= v <= high]
    if nice:
        options.insert(0, st.sampled_from(nice))
    words = gen.dictionary(ctx, low, high)
    if words:
        options.append(st.sampled_from(words))
    value = st.one_of(options)
    if signed:
        value = st.tuples(value, st.sampled_from([1.0, -1.0])).map(lambda p: p[0] * p[1])
    if zero:
        value = st.one_of(st.just(0.0), value, value, value)
    return value


def _pattern(draw, element, n, zero=True):
    """A list of n values: arbitrary, constant, all zero, one odd one out."""
    shape = draw(st.sampled_from(["any", "any", "any", "constant", "zero", "single"]))
    if shape == "zero" and zero:
        return [0.0] * n
    if shape == "constant":
        return [draw(element)] * n
    if shape == "single" and zero:
        values = [0.0] * n
        values[draw(st.integers(0, n - 1))] = draw(element)
        return values
    return draw(st.lists(element, min_size=n, max_size=n))


@st.composite
def control(draw, ctx, most=8, spread=7, names=True, newline=True, large_azimuth=True):
    n = draw(st.one_of(st.integers(1, min(4, most)), st.integers(1, most)))
    center = draw(st.one_of(st.just(0.0), st.floats(-20.0, 20.0)))
    low, high = 10.0 ** (center - spread), 10.0 ** (center + spread)
    tcenter = draw(st.one_of(st.just(0.0), st.floats(-12.0, 8.0)))
    tspread = draw(st.sampled_from([1, 3, 3, 6]))
    tlow, thigh = 10.0 ** (tcenter - tspread), 10.0 ** (tcenter + tspread)
    durations = _pattern(draw, _values(ctx, tlow, thigh, False, False), n, zero=False)
    if any(d <= 0 for d in durations):
        durations = [1.0] * n
    rabi = az = det = None
    if draw(st.integers(0, 9)) > 0:
        rabi = _pattern(draw, _values(ctx, low, high, False, True), n)
    if draw(st.integers(0, 9)) > 0:
        az = _pattern(draw, gen.azimuth(ctx), n)
    if draw(st.integers(0, 9)) > 0:
        det = _pattern(draw, _values(ctx, low, high, True, True), n)
        if draw(st.integers(0, 4)) == 0:
            det = [-abs(d) for d in det]
    return {
        "durations": durations,
        "rabi": rabi,
        "az": az,
        "det": det,
        "name": draw(gen.name(newline)) if names else None,
        "kind": draw(gen.containers()),
    }


@st.composite
def long_control(draw, ctx, low=50, high=1500, newline=True):
    """Many segments, cheaply: a few values repeated in an irregular pattern."""
    n = draw(gen.size(ctx, low, high))
    palette = draw(st.integers(2, 5))
    durations = draw(st.lists(gen.log_uniform(1e-3, 10.0), min_size=palette, max_size=palette))
    grid = lambda low, high: st.integers(low, high).map(lambda k: k / 997)
    rabi = draw(st.lists(grid(0, 9999), min_size=palette, max_size=palette))
    az = draw(st.lists(grid(-3999, 3999), min_size=palette, max_size=palette))
    det = draw(st.lists(grid(-4999, 4999), min_size=palette, max_size=palette))
    a, b = draw(st.integers(1, 50)), draw(st.integers(0, 50))
    unit, rate = draw(st.sampled_from([(1.0, 1.0), (1e-6, 1e6), (1e-12, 1.0), (1e7, 1e-3), (1.0, 1e12)]))

    def spread(values, stride):
        return [values[(a * i * i + b * i + stride * i // 3) % palette] for i in range(n)]

    result = {
        "durations": [unit * d * (1 + 1e-3 * i) for i, d in enumerate(spread(durations, 1))],
        "rabi": [rate * r for r in spread(rabi, 2)],
        "az": spread(az, 3),
        "det": [rate * d for d in spread(det, 4)],
        "name": draw(gen.name(newline)),
        "kind": "array",
    }
    # a few segments that stand out, anywhere
    factor = st.sampled_from([1.5, 20.0, 1e3, 0.01, 0.0])
    for field in draw(st.lists(st.sampled_from(["durations", "rabi", "az", "det", "det"]), max_size=4)):
        place = draw(st.one_of(st.integers(0, n - 1), st.sampled_from([0, n - 1, n - 2, n // 2])))
        scale = draw(factor)
        if field == "durations":
            result[field][place] = unit * max(scale, 1e-4)
        elif field == "rabi":
            result[field][place] = rate * 10.0 * scale
        else:
            result[field][place] = (10.0 if field == "az" else 10.0 * rate) * scale * draw(st.sampled_from([1, -1]))
    return result


def full(case):
    """The stored values that the case asks for."""
    n = len(case["durations"])
    return {
        "durations": [float(v) for v in case["durations"]],
        "rabi": [float(v) for v in (case["rabi"] if case["rabi"] is not None else [0.0] * n)],
        "az": [float(v) for v in (case["az"] if case["az"] is not None else [0.0] * n)],
        "det": [float(v) for v in (case["det"] if case["det"] is not None else [0.0] * n)],
    }


def step(case, label="c"):
    kw = {"durations": gen.wrap(case["durations"], case["kind"])}
    for key, field in (("rabi", "rabi_rates"), ("az", "azimuthal_angles"), ("det", "detunings")):
        if case[key] is not None:
            kw[field] = gen.wrap(case[key], case["kind"])
        elif case.get("explicit_none"):
            kw[field] = None
    if case.get("name") is not None:
        kw["name"] = case["name"]
    return {"op": "call", "fn": "DrivenControl", "kw": kw, "as": label}


@st.composite
def sequence(draw, ctx, most=8, newline=True):
    """Any valid sequence, not necessarily convertible."""
    T = draw(gen.positive(ctx, 1e-14, 1e9))
    n = draw(st.one_of(st.integers(0, min(3, most)), st.integers(0, most)))
    unit = st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(0.0, 1.0))
    fractions = draw(st.lists(unit, min_size=n, max_size=n))
    if draw(st.integers(0, 4)) > 0:
        fractions = sorted(fractions)
    angle = st.one_of(
        st.sampled_from([PI, PI / 2, 0.0]),
        st.floats(-10.0, 10.0),
        gen.log_uniform(1e-9, 1e6),
        st.sampled_from(gen.dictionary(ctx, 1e-3, 1e3) or [1.0]),
    )
    return {
        "T": T,
        "offsets": [min(T, f * T) for f in fractions],
        "rabi": draw(st.lists(angle, min_size=n, max_size=n)),
        "az": draw(st.lists(gen.azimuth(ctx), min_size=n, max_size=n)),
        "det": draw(st.lists(angle, min_size=n, max_size=n)),
        "kind": draw(gen.containers()),
        "name": draw(gen.name(newline)),
    }
