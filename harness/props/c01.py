from hypothesis import strategies as st

from .. import conv, gen, phys
from ..core import Component, fail

ASSUMPTIONS = [
    "rotations are zero or at least 2e-8 rad",
]


def compare(case, control, expected_name):
    expected = conv.expected_pulses(case)
    driven = [s for s in control.segments if s[0] != 0 or s[2] != 0]
    if len(driven) != len(expected):
        fail(
            "the number of driven segments differs from the number of non-null pulses",
            driven=len(driven),
            pulses=len(expected),
        )
    spread = 1e-8 * (1 + len(expected))
    for index, ((rabi, az, det, duration), (_, _, r, a, d)) in enumerate(zip(driven, expected)):
        slack = conv.slack(case["T"], duration)
        spread += slack * (r + abs(d))
        if not gen.close(rabi * duration, r, slack):
            fail("wrong Rabi rotation", pulse=index, got=rabi * duration, expected=r)
        if not gen.close(det * duration, d, slack):
            fail("wrong detuning rotation", pulse=index, got=det * duration, expected=d)
        if r and not gen.same_angle(az, a, 1e-9):
            fail("wrong azimuth", pulse=index, got=az, expected=a)
    total = phys.evolve(control.segments)
    ideal = phys.IDENTITY
    for _, _, r, a, d in expected:
        pulse = phys.segment(r, a, d, 1.0)
        ideal = phys.multiply(phys.rotation(*pulse), ideal)
    if phys.distance(total, ideal) > spread:
        fail("the unitary of the control is not the product of the pulses", got=total, expected=ideal)
    if control.name != expected_name:
        fail("wrong name", got=control.name, expected=expected_name)


def check(ctx, case):
    steps = [
        conv.sequence_step(case, name=case["other"]),
        conv.convert_step(case, name=case["name"]),
    ]
    _, result = ctx.run(steps)
    control = gen.expect_control(fail, result, "the conversion of a realisable sequence")
    compare(case, control, case["name"])
    if not case["offsets"]:
        return False
    kinds = {("R" if r else "D" if d else "N") for r, d in zip(case["rabi"], case["det"])}
    return "pulses %s%s%s" % (
        "".join(sorted(kinds)),
        " minimum" if case["m"] else "",
        " ends" if 0 in case["offsets"] or case["T"] in case["offsets"] else "",
    )


@st.composite
def predefined(draw, ctx):
    case = draw(conv.predefined(ctx))
    case["tightness"] = draw(st.floats(0.01, 1.0))
    case["min_share"] = draw(st.one_of(st.just(0.0), st.floats(0.01, 1.0)))
    case["ratio"] = draw(st.sampled_from([1.0, 3.7, 25.0]))
    return case


def realise(ctx, case):
    """Builds a predefined sequence and converts it within limits that fit."""
    (first,) = ctx.run([conv.factory_step(case)])
    sequence = gen.expect_sequence(fail, first, "a predefined sequence")
    if any(o < 0 or o > sequence.duration for o in sequence.offsets):
        fail("offsets outside the sequence")
    if any(b - a <= 0 for a, b in zip(sequence.offsets, sequence.offsets[1:])):
        fail("offsets are not ascending", offsets=sequence.offsets)
    full = conv.limits_for(sequence, case["tightness"], case["min_share"], case["ratio"])
    full.update(
        T=sequence.duration,
        offsets=sequence.offsets,
        rabi=sequence.rabi,
        az=sequence.azimuth,
        det=sequence.detuning,
        kind="array",
    )
    _, result = ctx.run([conv.factory_step(case), conv.convert_step(full, name="n")])
    return full, gen.expect_control(fail, result, "the conversion of a predefined sequence")


def check_predefined(ctx, case):
    full, control = realise(ctx, case)
    compare(full, control, "n")
    return case["scheme"] if full["offsets"] else False


COMPONENTS = [
    Component(
        "layouts",
        check,
        "sequences laid out pulse by pulse (Rabi, +/- detuning, null; gaps, ends, touching), converted; non-trivial: at least one pulse",
        strategy=lambda ctx: conv.convertible(ctx, 10 if ctx.tier == "quick" else 40),
        quick=6400,
    ),
    Component(
        "dense",
        check,
        "pulses whose widths and distances are all about the minimum segment duration; non-trivial: all",
        strategy=lambda ctx: conv.dense(ctx, 6 if ctx.tier == "quick" else 20),
        quick=1600,
    ),
    Component(
        "integers",
        check,
        "sequences and limits given as Python integers or integer arrays; non-trivial: all",
        strategy=lambda ctx: conv.integral(ctx),
        quick=800,
    ),
    Component(
        "predefined",
        check_predefined,
        "predefined sequences converted within limits that fit their spacing; non-trivial: at least one pulse",
        strategy=lambda ctx: predefined(ctx),
        quick=1600,
    ),
    Component(
        "long",
        check,
        "sequences of tens to hundreds of pulses; non-trivial: all",
        strategy=lambda ctx: conv.many(ctx, 400 if ctx.tier == "quick" else 2000),
        quick=400,
    ),
]
