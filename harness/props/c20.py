from .. import conv, gen, schemes
from ..core import Component, fail

ASSUMPTIONS = ["times to 1e-11 of the duration"]


def check(ctx, case):
    (result,) = ctx.run([conv.factory_step(case)])
    sequence = gen.expect_sequence(fail, result, "a quadratic sequence")
    kw = case["kw"]
    inner, outer = int(kw["inner_offset_count"]), int(kw["outer_offset_count"])
    if len(sequence.offsets) != inner + outer * (inner + 1):
        fail("wrong number of pulses", got=len(sequence.offsets), expected=inner + outer * (inner + 1))
    schemes.compare(fail, sequence, schemes.pulses("quadratic", kw), kw["duration"])
    return "inner %s outer" % ("<" if inner < outer else ">" if inner > outer else "=")


def grid(ctx):
    top = 14 if ctx.tier == "quick" else 40
    return [
        {"scheme": "quadratic", "kw": {
            "duration": 1.0 + (a * 3 + b) % 5, "inner_offset_count": a, "outer_offset_count": b}}
        for a in range(1, top + 1)
        for b in range(1, top + 1)
    ]


COMPONENTS = [
    Component("grid", check, "every pair of counts up to a bound; non-trivial: all", cases=grid),
    Component("sequences", check,
              "generated counts and durations; non-trivial: all",
              strategy=lambda ctx: schemes.request(ctx, ["quadratic"], 1 if ctx.tier == "quick" else 3), quick=2400),
]
