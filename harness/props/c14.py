from hypothesis import strategies as st

from .. import gen, phys, presets
from ..core import Component, fail
from .c12 import build
from .c13 import first_order

SCHEMES = ["corpse", "wamf1", "corpse_in_bb1", "corpse_in_sk1", "corpse_in_scrofulous"]
ASSUMPTIONS = ["the first-order change is at most 1e-9 (5e-8 for WAMF1, whose constants have eight digits) of the control's duration; detuning up to rotation angles of 100"]


def detuned(segments, h):
    return [(r, a, d + h, t) for r, a, d, t in segments]


def check(ctx, case):
    control = build(ctx, case)
    duration = sum(control.durations)
    if any(control.detuning):
        change = first_order(control.segments, detuned, 1 / duration)
        limit = 1e-4
    else:
        change = phys.norm(phys.detuning_sensitivity(control.segments)) / duration
        limit = 5e-8 if case["scheme"] == "wamf1" else 1e-9
    if not change <= limit:
        fail("a small detuning error changes the control to first order",
             scheme=case["scheme"], change=change, limit=limit)
    return case["scheme"]


def check_finite(ctx, case):
    control = build(ctx, case["control"])
    base = phys.evolve(control.segments)
    duration = sum(control.durations)
    size = case["error"] * case["sign"]
    change = phys.distance(phys.evolve(detuned(control.segments, size / duration)), base)
    if not change <= size * size + 1e-6 * abs(size) + 1e-11:
        fail("the change under a detuning error is not of second order",
             scheme=case["control"]["scheme"], change=change, error=size)
    return case["control"]["scheme"]


COMPONENTS = [
    Component("first order", check,
              "dephasing-robust controls over angles, rates and azimuths: the exact derivative of the unitary vanishes; non-trivial: all",
              strategy=lambda ctx: presets.valid(ctx, SCHEMES), quick=7200),
    Component("finite errors", check_finite,
              "the same with finite detunings (phase 1e-5 to 1e-1 over the control) against a quadratic bound; non-trivial: all",
              strategy=lambda ctx: st.fixed_dictionaries({
                  "control": presets.valid(ctx, SCHEMES),
                  "error": gen.log_uniform(1e-5, 1e-1),
                  "sign": st.sampled_from([1, -1]),
              }), quick=2400),
]
