import math

from .. import gen, phys, presets
from ..core import Component, fail

PI = math.pi
ASSUMPTIONS = [
    "tabulated SCROFULOUS angles: distance of unitaries at most 2e-3 (pi/4), 6e-4 (pi/2), 1e-9 (pi); all others 1e-9",
]


def build(ctx, case):
    (result,) = ctx.run([{"op": "call", "fn": case["fn"], "kw": case["kw"]}])
    return gen.expect_control(fail, result, "a predefined control")


def tolerance(case):
    theta = case["kw"]["rabi_rotation"]
    if "scrofulous" in case["scheme"]:
        if gen.close(theta, PI / 4, 1e-6):
            return 2e-3
        if gen.close(theta, PI / 2, 1e-6):
            return 6e-4
    return 1e-9


def check(ctx, case):
    control = build(ctx, case)
    theta, phi = case["kw"]["rabi_rotation"], case["kw"].get("azimuthal_angle", 0.0)
    target = phys.rotation(theta, (math.cos(phi), math.sin(phi), 0.0))
    error = phys.distance(phys.evolve(control.segments), target)
    if not error <= tolerance(case):
        fail("the control does not perform the requested rotation", distance=error, scheme=case["scheme"])
    return case["scheme"]


COMPONENTS = [
    Component("rotations", check,
              "predefined controls of every scheme, with angles (whole range, multiples of pi/4, edges), rates and azimuths; non-trivial: all",
              strategy=lambda ctx: presets.valid(ctx), quick=12000),
    Component("grid", check,
              "controls of every scheme at common angles, azimuths and rates; non-trivial: all",
              cases=lambda ctx: presets.grid(ctx)),
]
