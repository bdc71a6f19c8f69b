from .. import conv, gen, schemes
from ..core import Component, fail

ASSUMPTIONS = ["times to 1e-11 of the duration; orders up to 12 (X) and 6 (XY)"]


def check(ctx, case):
    (result,) = ctx.run([conv.factory_step(case)])
    sequence = gen.expect_sequence(fail, result, "a concatenated sequence")
    schemes.compare(fail, sequence, schemes.pulses(case["scheme"], case["kw"]), case["kw"]["duration"])
    return "%s order %d" % (case["scheme"], case["kw"]["concatenation_order"])


def orders(ctx):
    durations = [1.0, 1e-6, 3.0, 0.1, 7e-9, 12345.678]
    cases = []
    for scheme, top in (("x_concatenated", 12), ("xy_concatenated", 6)):
        for order in range(1, top + 1):
            for duration in durations if order < top else durations[:2]:
                cases.append({"scheme": scheme, "kw": {"duration": duration, "concatenation_order": order}})
    return cases


COMPONENTS = [
    Component("orders", check, "every order up to 12 (X) and 6 (XY) at fixed durations; non-trivial: all", cases=orders),
    Component("durations", check,
              "generated orders and durations; non-trivial: all",
              strategy=lambda ctx: schemes.request(ctx, ["x_concatenated", "xy_concatenated"]), quick=2400),
]
