import math

from hypothesis import strategies as st

from .. import gen, presets
from ..core import Component, fail
from .c12 import build

PI = math.pi
ASSUMPTIONS = [
    "the first SCROFULOUS angle is tabulated to a tenth of a degree: within 1e-3 rad of its equation; everything else, including the phases computed from it, to 1e-9",
]


@st.composite
def strategy(draw, ctx, schemes=presets.ALL):
    case = draw(presets.valid(ctx, schemes))
    if case["kw"]["azimuthal_angle"] == 0 and draw(st.booleans()):
        del case["kw"]["azimuthal_angle"]
    return case


def common(control, case):
    rate = case["kw"]["maximum_rabi_rate"]
    if any(d != 0 for d in control.detuning):
        fail("a segment has a detuning", scheme=case["scheme"])
    if case["scheme"] == "wamf1":
        return
    for i, r in enumerate(control.rabi):
        if not gen.close(r, rate, 1e-9):
            fail("a segment does not run at the maximum Rabi rate", segment=i, got=r, expected=rate)


def check_table(ctx, case):
    control = build(ctx, case)
    common(control, case)
    theta, phi = case["kw"]["rabi_rotation"], case["kw"].get("azimuthal_angle", 0.0)
    first = None
    if case["scheme"] in ("scrofulous", "corpse_in_scrofulous") and len(control.durations) in (3, 9):
        angles = [r * t for r, _, _, t in control.segments]
        first = angles[0] if case["scheme"] == "scrofulous" else 2 * angles[0] - angles[1] - 2 * PI
        exact = presets.scrofulous(theta)[0][0]
        # the phases are sensitive to this angle, so they are judged for the one in use
        if not abs(first - exact) <= 1e-3:
            fail("the first SCROFULOUS angle does not solve its equation", got=first, expected=exact)
    table = presets.documented(case["scheme"], theta, first)
    if len(table) != len(control.durations):
        fail("wrong number of segments", got=len(control.durations), expected=len(table))
    # cancellation in the short segments of CORPSE at small and large angles
    floor = 1e-9 if first else 1e-13 * max(1.0, theta)
    for i, ((r, a, _, t), (rotation, offset)) in enumerate(zip(control.segments, table)):
        if not gen.close(r * t, rotation, 1e-9, floor):
            fail("wrong rotation angle of a segment", segment=i, got=r * t, expected=rotation)
        if not gen.same_angle(a, phi + offset, 1e-7 if first else 1e-9):
            fail("wrong phase of a segment", segment=i, got=a, expected=phi + offset)
    return case["scheme"]


def check_wamf1(ctx, case):
    control = build(ctx, case)
    common(control, case)
    theta, phi = case["kw"]["rabi_rotation"], case["kw"].get("azimuthal_angle", 0.0)
    rate = case["kw"]["maximum_rabi_rate"]
    if len(control.durations) != 4:
        fail("wrong number of segments", got=len(control.durations), expected=4)
    for i, (r, a, _, t) in enumerate(control.segments):
        if not gen.close(t, control.durations[0], 1e-9):
            fail("the segments are not equally long", segment=i)
        if not gen.same_angle(a, phi):
            fail("wrong phase of a segment", segment=i, got=a, expected=phi)
        if i in (0, 3) and not gen.close(r, rate, 1e-9):
            fail("an outer segment does not run at the maximum rate", segment=i, got=r, expected=rate)
        if i in (1, 2) and not 0 < r < rate * (1 - 1e-6):
            fail("an inner segment does not run below the maximum rate", segment=i, got=r, maximum=rate)
    if not gen.close(control.rabi[1], control.rabi[2], 1e-9):
        fail("the inner segments differ", got=control.rabi)
    total = sum(r * t for r, _, _, t in control.segments)
    turns = (total - theta) / (2 * PI)
    if abs(turns - round(turns)) > 1e-9:
        fail("the segments do not add up to the rotation", got=total, expected=theta)
    return "wamf1"


@st.composite
def pair(draw, ctx):
    first = draw(strategy(ctx))
    return {
        "first": first,
        "rate": draw(presets.rates(ctx)),
        "azimuth": draw(gen.azimuth(ctx)),
    }


def check_pair(ctx, case):
    """The same control with another maximum rate and azimuth."""
    first = case["first"]
    kw = dict(first["kw"], maximum_rabi_rate=case["rate"], azimuthal_angle=case["azimuth"])
    a, b = build(ctx, first), build(ctx, dict(first, kw=kw))
    if len(a.durations) != len(b.durations):
        fail("the number of segments depends on rate or azimuth")
    shift = case["azimuth"] - first["kw"].get("azimuthal_angle", 0.0)
    ratio = case["rate"] / first["kw"]["maximum_rabi_rate"]
    size = max(1.0, abs(case["azimuth"]), abs(first["kw"].get("azimuthal_angle", 0.0)))
    for i, (x, y) in enumerate(zip(a.segments, b.segments)):
        if not gen.close(x[0] * ratio, y[0], 1e-9):
            fail("a Rabi rate is not proportional to the maximum", segment=i, got=y[0], expected=x[0] * ratio)
        if not gen.close(x[3] / ratio, y[3], 1e-9):
            fail("a duration is not inversely proportional to the maximum rate", segment=i, got=y[3],
                 expected=x[3] / ratio)
        if not gen.same_angle(x[1] + shift, y[1], 1e-9 * size):
            fail("the azimuth does not shift a phase", segment=i, got=y[1], expected=x[1] + shift)
    return first["scheme"]


TABLED = [s for s in presets.ALL if s != "wamf1"]

COMPONENTS = [
    Component("tables", check_table,
              "controls with a documented segment table compared with it segment by segment; non-trivial: all",
              strategy=lambda ctx: strategy(ctx, TABLED), quick=7200),
    Component("wamf1", check_wamf1,
              "the four WAMF1 segments; non-trivial: all",
              strategy=lambda ctx: strategy(ctx, ["wamf1"]), quick=1200),
    Component("grid", check_table,
              "controls with a documented segment table at common angles, azimuths and rates; non-trivial: all",
              cases=lambda ctx: presets.grid(ctx, TABLED)),
    Component("wamf1 grid", check_wamf1,
              "the four WAMF1 segments at common azimuths and rates; non-trivial: all",
              cases=lambda ctx: presets.grid(ctx, ["wamf1"])),
    Component("pairs", check_pair,
              "every control at two maximum rates and azimuths; non-trivial: all",
              strategy=pair, quick=3200),
]
