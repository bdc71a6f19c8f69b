from hypothesis import strategies as st

from .. import conv, gen
from ..core import Component, fail

ASSUMPTIONS = [
    "gaps are at least the minimum (to rounding) in accepted cases and short of it by at least 1e-4 of it, 1e-7 of the pulses next to it and 1e-10 of the duration in refused ones; the strip between is left open",
]


def widths(case):
    result = []
    for rabi, det in zip(case["rabi"], case["det"]):
        if rabi or det:
            result.append(max(rabi / case["R"] if rabi else abs(det) / case["D"], case["m"]))
        else:
            result.append(0.0)
    return result


@st.composite
def spoiled(draw, ctx):
    case = draw(st.one_of(conv.convertible(ctx, 8), conv.convertible(ctx, 8), conv.dense(ctx)))
    n = len(case["offsets"])
    T = case["T"]
    tiny = st.one_of(gen.log_uniform(1e-6, 10.0), st.sampled_from([1.0, 3.141592653589793]))
    kinds = ["rate", "negative minimum", "minimum too long"]
    active = [i for i in range(n) if case["rabi"][i] or case["det"][i]]
    if n >= 1:
        kinds += ["negative rabi", "negative rabi"]
    if n >= 2:
        kinds += ["swap", "coincide", "shift"]
    if active:
        kinds += ["combined", "combined", "too slow"]
        kinds += ["before start", "after end", "shift"]
    kind = draw(st.sampled_from(kinds))
    case["pass_m"] = True
    if kind == "rate":
        key = draw(st.sampled_from("RD"))
        case[key] = draw(st.sampled_from([0.0, -1.0, -case[key], 0, float("nan")]))
    elif kind == "negative minimum":
        case["m"] = -T * draw(gen.log_uniform(1e-9, 1.0))
    elif kind == "minimum too long":
        shortest = min(conv.all_gaps(case))
        case["m"] = (max(shortest, 0) * 1.0001 + draw(gen.log_uniform(1e-9, 1e-5)) * T) * draw(gen.log_uniform(1.0, 20.0))
    elif kind == "negative rabi":
        i = draw(st.integers(0, n - 1))
        case["rabi"][i] = -(case["rabi"][i] or draw(tiny))
    elif kind == "swap":
        i = draw(st.integers(0, n - 2))
        j = draw(st.integers(i + 1, n - 1))
        for key in ("offsets",) + (("rabi", "az", "det") if draw(st.booleans()) else ()):
            case[key][i], case[key][j] = case[key][j], case[key][i]
    elif kind == "coincide":
        i = draw(st.integers(0, n - 2))
        a, b = draw(st.sampled_from([(i, i + 1), (i + 1, i)]))
        case["offsets"][a] = case["offsets"][b]
    elif kind == "combined":
        i = draw(st.sampled_from(active))
        extra = draw(tiny)
        if case["rabi"][i]:
            case["det"][i] = extra * draw(st.sampled_from([1, -1]))
        else:
            case["rabi"][i] = extra
    elif kind == "too slow":
        # together the pulses would need more than the whole duration
        i = draw(st.sampled_from(active))
        key, angles = ("R", case["rabi"]) if case["rabi"][i] else ("D", case["det"])
        total = sum(abs(a) for a in angles)
        case[key] = min(case[key], total / (T * draw(gen.log_uniform(1.01, 100.0))))
    elif kind in ("before start", "after end"):
        w = widths(case)
        # keep only one end pulse and let it stick out of the sequence
        i = active[0] if kind == "before start" else active[-1]
        for key in ("offsets", "rabi", "az", "det"):
            case[key] = case[key][i:] if kind == "before start" else case[key][: i + 1]
        i = 0 if kind == "before start" else len(case["offsets"]) - 1
        w = widths(case)
        part = draw(st.floats(0.01, 0.9))
        if w[i] / 2 * (1 - part) < 1e-9 * T:
            # too narrow to stick out visibly: make it collide with the end instead
            case["m"] = 0.5 * T
            w = widths(case)
        inset = w[i] / 2 * part
        case["offsets"][i] = inset if kind == "before start" else T - inset
    elif kind == "shift":
        # move one pulse into its neighbour (or beyond)
        w = widths(case)
        candidates = [
            i for i in range(n - 1) if (w[i] + w[i + 1]) / 2 + case["m"] > 1e-9 * T
        ]
        if not candidates:
            case["offsets"] = case["offsets"][::-1] if n > 1 else case["offsets"]
            kind = "reversed"
        else:
            i = draw(st.sampled_from(candidates))
            need = (w[i] + w[i + 1]) / 2 + case["m"]
            gap = need * draw(st.floats(0.0, 0.9))
            if draw(st.booleans()):
                case["offsets"][i + 1] = min(T, case["offsets"][i] + gap)
            else:
                case["offsets"][i] = max(0.0, case["offsets"][i + 1] - gap)
    if kind in ("swap", "coincide", "shift", "reversed") and draw(st.integers(0, 2)) == 0:
        # pulses without any rotation have no width: only their order is wrong
        case["m"] = 0.0
        case["rabi"] = [0.0] * n
        case["det"] = [0.0] * n
        kind += " null"
    case["spoiled"] = kind
    return case


def problem(case):
    """
    An independent statement of why the case is not realisable (None if it is
    realisable or too close to call).
    """
    T, m = case["T"], case["m"]
    if not case["R"] > 0 or not case["D"] > 0:
        return "rate"
    if m < 0:
        return "negative minimum"
    if any(r < 0 for r in case["rabi"]):
        return "negative rotation"
    if any(r and d for r, d in zip(case["rabi"], case["det"])):
        return "combined"
    if any(b <= a for a, b in zip(case["offsets"], case["offsets"][1:])):
        return "order"
    if any(gap < m * (1 - 1e-4) - 1e-10 * T - 1e-7 * near for gap, near in zip(*conv.gaps_and_widths(case))):
        return "gap"
    return None


def check_accept(ctx, case):
    _, result = ctx.run(conv.both(case))
    gen.expect_control(fail, result, "the conversion of a realisable sequence")
    if not case["offsets"]:
        return False
    shortest = min(conv.all_gaps(case)) - case["m"]
    return "touching" if abs(shortest) < 1e-12 * case["T"] else "spaced"


def check_refuse(ctx, case):
    reason = problem(case)
    first, result = ctx.run(conv.both(case))
    if "exc" in first:
        fail("a valid sequence was refused", text=first["exc"]["str"][:300])
    if reason is None:
        if "exc" in result and not result["exc"]["argument_error"]:
            fail("the conversion failed with another error", error=result["exc"]["type"])
        return False
    gen.expect_refusal(fail, result, "a sequence that cannot be realised (%s)" % reason)
    return "%s -> %s" % (case["spoiled"], reason)


COMPONENTS = [
    Component(
        "realisable",
        check_accept,
        "sequences laid out to fit their limits, many with touching pulses, must convert; non-trivial: at least one pulse",
        strategy=lambda ctx: conv.convertible(ctx, 10 if ctx.tier == "quick" else 40),
        quick=4800,
    ),
    Component(
        "realisable dense",
        check_accept,
        "pulses whose widths and distances are all about the minimum segment duration must convert; non-trivial: all",
        strategy=lambda ctx: conv.dense(ctx, 6 if ctx.tier == "quick" else 20),
        quick=1600,
    ),
    Component(
        "realisable integers",
        check_accept,
        "sequences and limits given as integers must convert; non-trivial: all",
        strategy=lambda ctx: conv.integral(ctx),
        quick=600,
    ),
    Component(
        "spoiled",
        check_refuse,
        "a realisable sequence spoiled in one way must be refused; non-trivial: an independent rule finds it unrealisable",
        strategy=lambda ctx: spoiled(ctx),
        quick=6400,
    ),
    Component(
        "long",
        check_accept,
        "sequences of tens to hundreds of pulses; non-trivial: all",
        strategy=lambda ctx: conv.many(ctx, 400 if ctx.tier == "quick" else 2000),
        quick=400,
    ),
]
