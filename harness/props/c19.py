from .. import conv, gen, schemes
from ..core import Component, fail

ASSUMPTIONS = ["times to 1e-11 of the duration"]


def check(ctx, case):
    (result,) = ctx.run([conv.factory_step(case)])
    sequence = gen.expect_sequence(fail, result, "a Walsh sequence")
    k = int(case["kw"]["paley_order"])
    schemes.compare(fail, sequence, schemes.pulses("walsh", {"paley_order": k}), case["kw"]["duration"])
    return "%d binary digits" % k.bit_length()


def all_orders(ctx):
    return [
        {"scheme": "walsh", "kw": {"duration": 10.0 ** (k % 13 - 9) * (1 + k % 5), "paley_order": k}}
        for k in range(1, 2001)
    ]


COMPONENTS = [
    Component("orders", check, "every Paley order from 1 to 2000; non-trivial: all", cases=all_orders),
    Component("durations", check,
              "generated orders and durations; non-trivial: all",
              strategy=lambda ctx: schemes.request(ctx, ["walsh"]), quick=1600),
]
