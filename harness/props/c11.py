import cmath

from hypothesis import strategies as st

from .. import conv, ctrl, gen
from ..core import Component, fail
from .c10 import entries


def judge(result, sequence):
    data = gen.table(gen.expect_ok(fail, result, "the plot export"))
    if set(data) != {"Rabi", "Detuning"}:
        fail("unexpected channels", got=sorted(data))
    n = len(sequence.offsets)
    rabi = entries(data["Rabi"], "rotation", n)
    detuning = entries(data["Detuning"], "rotation", n)
    for i, (offset, r, a, d) in enumerate(sequence.pulses):
        ideal = cmath.rect(r, a)
        if not abs(rabi[i][0] - ideal) <= 1e-9 * abs(ideal):
            fail("wrong plotted Rabi rotation", pulse=i, got=str(rabi[i][0]), expected=str(ideal))
        if not abs(detuning[i][0] - d) <= 1e-12 * abs(d):
            fail("wrong plotted detuning rotation", pulse=i, got=str(detuning[i][0]), expected=d)
        for got in (rabi[i][1], detuning[i][1]):
            if not gen.close(got, offset, 1e-12):
                fail("wrong plotted offset", pulse=i, got=got, expected=offset)


class Given:
    def __init__(self, case):
        self.offsets = case["offsets"]
        self.pulses = list(zip(case["offsets"], case["rabi"], case["az"], case["det"]))


def check(ctx, case):
    results = ctx.run(
        [
            conv.sequence_step(case, name=case["name"]),
            {"op": "method", "obj": "s", "name": "export"},
            {"op": "snap", "obj": "s"},
        ]
    )
    gen.expect_sequence(fail, results[0], "a valid sequence")
    judge(results[1], Given(case))
    if results[2]["ok"] != results[0]["ok"]:
        fail("the plot export changed the sequence")
    return "%d pulses" % len(case["offsets"]) if case["offsets"] else False


def check_predefined(ctx, case):
    results = ctx.run([conv.factory_step(case), {"op": "method", "obj": "s", "name": "export"}])
    sequence = gen.expect_sequence(fail, results[0], "a predefined sequence")
    judge(results[1], sequence)
    return case["scheme"] if sequence.offsets else False


COMPONENTS = [
    Component("sequences", check,
              "arbitrary sequences (sorted or not, any signs) exported for plotting; non-trivial: at least one pulse",
              strategy=lambda ctx: st.one_of(ctrl.sequence(ctx, 10), conv.convertible(ctx, 8)), quick=6400),
    Component("predefined", check_predefined,
              "predefined sequences exported for plotting; non-trivial: at least one pulse",
              strategy=lambda ctx: conv.predefined(ctx, 60), quick=1600),
    Component("long", check,
              "sequences of tens to hundreds of pulses; non-trivial: all",
              strategy=lambda ctx: conv.many(ctx, 400), quick=320),
]
