from hypothesis import strategies as st

from .. import gen, phys, presets
from ..core import Component, fail
from .c12 import build

SCHEMES = ["bb1", "sk1", "scrofulous", "corpse_in_bb1", "corpse_in_sk1", "corpse_in_scrofulous"]
ASSUMPTIONS = ["the first-order change is at most 1e-9 of the total rotation (1e-6 for the SCROFULOUS controls)"]


def first_order(segments, perturb, scale):
    """Numerical derivative of the unitary (up to its global sign)."""
    h = 1e-5 * scale
    plus = phys.evolve(perturb(segments, h))
    minus = phys.evolve(perturb(segments, -h))
    return phys.distance(plus, minus) / (2e-5)


def amplitude(segments, h):
    return [(r * (1 + h), a, d, t) for r, a, d, t in segments]


def check(ctx, case):
    control = build(ctx, case)
    total = sum(r * t for r, _, _, t in control.segments)
    if any(control.detuning):
        change = first_order(control.segments, amplitude, 1.0)
        limit = 1e-4 * max(total, 1.0)
    else:
        change = phys.norm(phys.amplitude_sensitivity(control.segments))
        limit = (1e-6 if "scrofulous" in case["scheme"] else 1e-9) * max(total, 1.0)
    if not change <= limit:
        fail("a small amplitude error changes the control to first order",
             scheme=case["scheme"], change=change, limit=limit)
    return case["scheme"]


def check_finite(ctx, case):
    """
    The same from the definition: halving the error quarters the change.
    """
    control = build(ctx, case["control"])
    base = phys.evolve(control.segments)
    size = case["error"] * case["sign"]
    total = sum(r * t for r, _, _, t in control.segments)
    change = phys.distance(phys.evolve(amplitude(control.segments, size)), base)
    if not change <= total * total * size * size + 1e-6 * abs(size) * total + 1e-12:
        fail("the change under an amplitude error is not of second order",
             scheme=case["control"]["scheme"], change=change, error=size)
    return case["control"]["scheme"]


def check_primitive(ctx, case):
    control = build(ctx, case)
    theta = case["kw"]["rabi_rotation"]
    change = phys.norm(phys.amplitude_sensitivity(control.segments)) if not any(control.detuning) else -1
    if not gen.close(change, theta / 2, 1e-9):
        fail("the primitive control does not show the expected first-order change", change=change, expected=theta / 2)
    return True


COMPONENTS = [
    Component("first order", check,
              "amplitude-robust controls over angles, rates and azimuths: the exact derivative of the unitary vanishes; non-trivial: all",
              strategy=lambda ctx: presets.valid(ctx, SCHEMES), quick=7200),
    Component("finite errors", check_finite,
              "the same with finite errors from 1e-6 to 1e-2 of either sign against a quadratic bound; non-trivial: all",
              strategy=lambda ctx: st.fixed_dictionaries({
                  "control": presets.valid(ctx, SCHEMES),
                  "error": gen.log_uniform(1e-6, 1e-2),
                  "sign": st.sampled_from([1, -1]),
              }), quick=2400),
    Component("primitive", check_primitive,
              "the primitive control changes to first order; non-trivial: all",
              strategy=lambda ctx: presets.valid(ctx, ["primitive"]), quick=800),
]
