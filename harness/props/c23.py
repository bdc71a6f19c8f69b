import math

from .. import conv, gen, phys, schemes
from ..core import Component, fail

PI = math.pi


def check(ctx, case):
    kw = case["kw"]
    plain_kw = dict(kw)
    if len(str(kw["duration"])) % 2:
        plain_kw["pre_post_rotation"] = False
    framed = dict(case, kw=dict(kw, pre_post_rotation=True))
    r = ctx.run([conv.factory_step(dict(case, kw=plain_kw), "a"), conv.factory_step(framed, "b")])
    plain = gen.expect_sequence(fail, r[0], "a predefined sequence")
    full = gen.expect_sequence(fail, r[1], "a predefined sequence with pre- and post-rotation")
    T = kw["duration"]
    if not gen.close(full.duration, T, 1e-15):
        fail("the duration differs", got=full.duration, expected=T)
    a, b = plain.pulses, full.pulses
    if len(b) != len(a) + 2:
        fail("not exactly two pulses are added", without=len(a), with_=len(b))
    for i, (p, q) in enumerate(zip(a, b[1:-1])):
        if not (abs(p[0] - q[0]) <= 1e-12 * T and all(gen.close(x, y, 1e-12) for x, y in zip(p[1:], q[1:]))):
            fail("another pulse changes", pulse=i, without=p, with_=q)
    for pulse, time in ((b[0], 0.0), (b[-1], T)):
        if not abs(pulse[0] - time) <= 1e-12 * T:
            fail("a framing pulse is at the wrong time", got=pulse[0], expected=time)
        if not gen.close(pulse[1], PI / 2, 1e-9) or pulse[3] != 0:
            fail("a framing pulse is not a pi/2 rotation", got=pulse)
        if not (gen.same_phase(pulse[2], 0.0) or gen.same_phase(pulse[2], PI)):
            fail("a framing pulse is not about the X axis", got=pulse)
    if not gen.same_phase(b[0][2], 0.0):
        fail("the first rotation is not a positive X rotation", got=b[0])
    net = phys.IDENTITY
    for _, rabi, azimuth, detuning in b:
        vector = (rabi * math.cos(azimuth), rabi * math.sin(azimuth), detuning)
        net = phys.multiply(phys.rotation(phys.norm(vector), vector), net)
    flat = math.hypot(net[1], net[2])
    if not flat <= 1e-9 or not min(abs(net[0]), abs(net[3])) <= 1e-9:
        fail("the net effect is neither an identity nor a Z rotation", net=net)
    return "%s -> %s" % (case["scheme"], "identity" if abs(net[0]) > 0.5 else "Z")


ASSUMPTIONS = ["the pre-rotation has azimuth 0, as in all documented sequences"]

COMPONENTS = [
    Component("sequences", check,
              "every scheme with and without pre- and post-rotation; non-trivial: all",
              strategy=lambda ctx: schemes.request(ctx), quick=6400),
]
