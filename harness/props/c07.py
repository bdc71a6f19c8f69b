import math

from hypothesis import strategies as st

from .. import ctrl, gen
from ..core import Component, fail

ASSUMPTIONS = ["non-zero amplitudes of one control span at most fifteen orders of magnitude"]

NAMES = ["angles", "directions", "times", "amplitude_x", "amplitude_y", "duration",
         "maximum_rabi_rate", "maximum_detuning", "maximum_duration", "minimum_duration",
         "number_of_segments"]


def close_list(label, got, want, rel=1e-9, scale=0.0):
    if len(got) != len(want):
        fail("wrong number of values", what=label, got=len(got), expected=len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        if not gen.close(a, b, rel, scale):
            fail("wrong value", what=label, index=i, got=a, expected=b)


def check(ctx, case):
    results = ctx.run([ctrl.step(case), {"op": "get", "obj": "c", "names": NAMES}])
    gen.expect_control(fail, results[0], "a valid control")
    got = gen.table(gen.expect_ok(fail, results[1], "reading the derived quantities"))
    want = ctrl.full(case)
    n = len(want["durations"])
    for label, trig in (("amplitude_x", math.cos), ("amplitude_y", math.sin)):
        numbers = gen.values(got[label])
        if len(numbers) != n:
            fail("wrong number of values", what=label)
        for i, (r, a, v) in enumerate(zip(want["rabi"], want["az"], numbers)):
            if not gen.close(v, r * trig(a), 1e-9, 1e-12 * r):
                fail("wrong value", what=label, index=i, got=v, expected=r * trig(a))
    amplitudes = [math.hypot(r, d) for r, d in zip(want["rabi"], want["det"])]
    close_list("angles", gen.values(got["angles"]),
               [a * t for a, t in zip(amplitudes, want["durations"])])
    directions = got["directions"]
    if directions["shape"] != [n, 3]:
        fail("the directions are not one vector per segment", shape=directions["shape"])
    flat = directions["a"]
    for i in range(n):
        vector = flat[3 * i : 3 * i + 3]
        r, a, d, size = want["rabi"][i], want["az"][i], want["det"][i], amplitudes[i]
        ideal = [0.0, 0.0, 0.0]
        if size > 0:
            ideal = [r * math.cos(a) / size, r * math.sin(a) / size, d / size]
        for x, y in zip(vector, ideal):
            if not gen.close(x, y, 1e-9, 1e-10):
                fail("wrong direction", segment=i, got=vector, expected=ideal)
    total = math.fsum(want["durations"])
    boundaries = [0.0]
    for t in want["durations"]:
        boundaries.append(boundaries[-1] + t)
    times = gen.values(got["times"])
    close_list("times", times, boundaries, 1e-9, 1e-12 * total)
    if times[0] != 0 or any(b < a for a, b in zip(times, times[1:])):
        fail("the boundary times do not start at zero and grow", times=times)
    for label, expected in (
        ("duration", total),
        ("maximum_rabi_rate", max(want["rabi"])),
        ("maximum_detuning", max(want["det"])),
        ("maximum_duration", max(want["durations"])),
        ("minimum_duration", min(want["durations"])),
        ("number_of_segments", n),
    ):
        if isinstance(got[label], (dict, list, str)) or got[label] is None:
            fail("not a number", what=label, got=got[label])
        if not gen.close(got[label], expected, 1e-9):
            fail("wrong value", what=label, got=got[label], expected=expected)
    zero = sum(1 for a in amplitudes if a == 0)
    return "%s%s" % (
        "one segment" if n == 1 else "many segments",
        "" if not zero else ", all idle" if zero == n else ", some idle",
    )


def strategy(ctx):
    return st.one_of(
        ctrl.control(ctx, most=8 if ctx.tier == "quick" else 30),
        ctrl.control(ctx, most=8),
        ctrl.control(ctx, most=8, spread=1),
    )


COMPONENTS = [
    Component("controls", check,
              "controls over all magnitudes, signs and zero patterns; non-trivial: all",
              strategy=strategy, quick=9600),
    Component("long", check,
              "controls with tens to hundreds of segments; non-trivial: all",
              strategy=lambda ctx: ctrl.long_control(ctx, 20, 600), quick=320),
]
