import math

from hypothesis import strategies as st

from .. import conv, gen, schemes
from ..core import Component, fail

ASSUMPTIONS = [
    "pulses are instantaneous pi rotations; polynomial degrees up to 60, tested through Legendre polynomials to 1e-9 of the duration",
]
SCHEMES = [s for s in schemes.ALL if s != "ramsey"]
FLIPPED_BY = {"x": ("Y", "Z"), "y": ("X", "Z"), "z": ("X", "Y")}


def switching(sequence, component):
    """[(start, end, sign)] of a perturbation along the axis, in [-1, 1]."""
    T = sequence.duration
    marks = [-1.0]
    for pulse in sequence.pulses:
        name = schemes.axis(pulse)
        if name is None:
            fail("a pulse is not a pi pulse about X, Y or Z", pulse=pulse)
        if name in FLIPPED_BY[component]:
            marks.append(2 * pulse[0] / T - 1)
    marks.append(1.0)
    return [(a, b, (-1) ** i) for i, (a, b) in enumerate(zip(marks, marks[1:]))]


def legendre(x, top):
    values = [1.0, x]
    for j in range(1, top + 1):
        values.append(((2 * j + 1) * x * values[j] - j * values[j - 1]) / (j + 1))
    return values


def primitives(x, top):
    """Antiderivatives of the Legendre polynomials up to degree top."""
    p = legendre(x, top + 1)
    return [p[1]] + [(p[j + 1] - p[j - 1]) / (2 * j + 1) for j in range(1, top + 1)]


def moments(sequence, component, top):
    total = [0.0] * (top + 1)
    pieces = switching(sequence, component)
    before = primitives(pieces[0][0], top)
    for a, b, sign in pieces:
        after = primitives(b, top)
        for j in range(top + 1):
            total[j] += sign * (after[j] - before[j]) / 2
        before = after
    return total


def promised(scheme, kw):
    """[(axis, number of moments that vanish)]"""
    if scheme in ("spin_echo", "carr_purcell", "cpmg"):
        return [("z", 1)]
    if scheme == "periodic":
        return [("z", 1 if kw["offset_count"] % 2 else 0)]
    if scheme == "uhrig":
        return [("z", kw["offset_count"])]
    if scheme == "walsh":
        return [("z", bin(kw["paley_order"]).count("1"))]
    if scheme == "quadratic":
        order = min(kw["inner_offset_count"], kw["outer_offset_count"])
        return [("x", order), ("y", order), ("z", order)]
    order = kw["concatenation_order"]
    if scheme == "x_concatenated":
        return [("z", order)]
    return [("x", order), ("y", order), ("z", order)]


def check(ctx, case):
    (result,) = ctx.run([conv.factory_step(case)])
    sequence = gen.expect_sequence(fail, result, "a predefined sequence")
    tested = 0
    for component, number in promised(case["scheme"], case["kw"]):
        number = min(number, 60)
        if number == 0:
            continue
        tested = max(tested, number)
        values = moments(sequence, component, number - 1)
        for degree, value in enumerate(values):
            if not abs(value) <= 1e-9:
                fail("slow noise is not averaged out", scheme=case["scheme"], axis=component,
                     degree=degree, average=value)
    return "%s degree <%s" % (case["scheme"], tested if tested <= 4 else "many") if tested else False


@st.composite
def polynomial(draw, ctx):
    case = draw(schemes.request(ctx, SCHEMES))
    case["coefficients"] = draw(st.lists(st.floats(-1.0, 1.0), min_size=1, max_size=12))
    return case


def check_polynomial(ctx, case):
    """A generated polynomial perturbation of the promised degree."""
    (result,) = ctx.run([conv.factory_step(case)])
    sequence = gen.expect_sequence(fail, result, "a predefined sequence")
    tested = 0
    for component, number in promised(case["scheme"], case["kw"]):
        c = case["coefficients"][:number]
        if not c:
            continue
        tested = max(tested, len(c))

        def primitive(t):
            return math.fsum(v * t ** (j + 1) / (j + 1) for j, v in enumerate(c))

        total = math.fsum(
            sign * (primitive((b + 1) / 2) - primitive((a + 1) / 2)) for a, b, sign in switching(sequence, component)
        )
        if not abs(total) <= 1e-10 * len(c):
            fail("a polynomial perturbation is not averaged out", axis=component, average=total)
    return "%s %d coefficients" % (case["scheme"], tested) if tested else False


COMPONENTS = [
    Component("moments", check,
              "every promised moment of every scheme; non-trivial: at least one moment is promised",
              strategy=lambda ctx: schemes.request(ctx, SCHEMES), quick=4800),
    Component("polynomials", check_polynomial,
              "generated polynomial perturbations below the promised degree; non-trivial: at least one coefficient",
              strategy=polynomial, quick=2400),
]
