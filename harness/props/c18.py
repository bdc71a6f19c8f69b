import math

from .. import conv, gen, schemes
from ..core import Component, fail

SCHEMES = ["ramsey", "spin_echo", "carr_purcell", "cpmg", "uhrig", "periodic"]
ASSUMPTIONS = ["times to 1e-11 of the duration"]


def check(ctx, case):
    (result,) = ctx.run([conv.factory_step(case)])
    sequence = gen.expect_sequence(fail, result, "a predefined sequence")
    expected = schemes.pulses(case["scheme"], case["kw"])
    schemes.compare(fail, sequence, expected, case["kw"]["duration"])
    if any(not 0 < o < sequence.duration for o in sequence.offsets):
        fail("a pulse is not strictly inside the duration")
    if any(d != 0 for d in sequence.detuning):
        fail("a pulse carries a detuning rotation")
    n = case["kw"].get("offset_count", 0)
    return "%s %s" % (case["scheme"], "1" if n == 1 else "2-12" if n <= 12 else "13+")


def enumerated(ctx):
    cases = []
    top = 520 if ctx.tier == "quick" else 3000
    for scheme in SCHEMES[2:]:
        for n in range(1, top + 1):
            cases.append({"scheme": scheme, "kw": {"duration": 1.0 + 0.37 * (n % 7), "offset_count": n}})
    return cases


COMPONENTS = [
    Component("sequences", check,
              "single-axis sequences with generated durations and counts; non-trivial: all",
              strategy=lambda ctx: schemes.request(ctx, SCHEMES, 1 if ctx.tier == "quick" else 10), quick=4800),
    Component("counts", check,
              "every count up to a bound for every counted scheme; non-trivial: all",
              cases=enumerated),
]
