"""
The predefined driven controls: parameters and documented segment tables.
"""
import math

from hypothesis import strategies as st

from . import gen

PI = math.pi

CONTINUOUS = {
    "primitive": 100.0,
    "corpse": 100.0,
    "bb1": 4 * PI,
    "sk1": 4 * PI,
    "corpse_in_bb1": 4 * PI,
    "corpse_in_sk1": 4 * PI,
}
DISCRETE = ["scrofulous", "corpse_in_scrofulous", "wamf1"]
ALL = list(CONTINUOUS) + DISCRETE
DISCRETE_ANGLES = [PI, PI / 2, PI / 4]


def rates(ctx):
    return gen.positive(ctx, 1e-10, 1e13, nice=(1e6, 2 * PI * 1e6))


def angles(ctx, scheme):
    if scheme in DISCRETE:
        return st.sampled_from(DISCRETE_ANGLES)
    top = CONTINUOUS[scheme]
    eighths = [k * PI / 4 for k in range(1, 17) if k * PI / 4 <= top]
    words = [v for v in gen.dictionary(ctx, 1e-6, top)]
    return st.one_of(
        st.sampled_from([PI, PI / 2, PI / 4]),
        st.floats(1e-3, min(top, 4 * PI)),
        st.sampled_from(eighths),
        gen.log_uniform(1e-6, top),
        st.floats(0.5 * top, top),
        st.sampled_from(words),
    )


@st.composite
def valid(draw, ctx, schemes=ALL, names=True):
    scheme = draw(st.sampled_from(list(schemes)))
    case = {
        "scheme": scheme,
        "fn": "new_%s_control" % scheme,
        "kw": {
            "rabi_rotation": draw(angles(ctx, scheme)),
            "maximum_rabi_rate": draw(rates(ctx)),
            "azimuthal_angle": draw(gen.azimuth(ctx)),
        },
    }
    if draw(st.integers(0, 7)) == 0:
        # numbers may also be integers
        whole = {"maximum_rabi_rate": st.integers(1, 1000), "azimuthal_angle": st.integers(-7, 7)}
        if scheme not in DISCRETE:
            whole["rabi_rotation"] = st.integers(1, 12)
        for key in draw(st.sets(st.sampled_from(sorted(whole)), min_size=1)):
            case["kw"][key] = draw(whole[key])
    if names and draw(st.integers(0, 3)) == 0:
        case["kw"]["name"] = draw(gen.name())
    return case


def grid(ctx, schemes=ALL):
    """Every control at all combinations of common angles, azimuths and rates."""
    cases = []
    for scheme in schemes:
        if scheme in DISCRETE:
            rotations = DISCRETE_ANGLES
        else:
            rotations = [PI, PI / 2, PI / 4, 2 * PI, 3 * PI / 2, 4 * PI, 1, 0.1]
        for rotation in rotations:
            for rate in (1, 2 * PI, 1e-3, 40.0, 1e4, 2 * PI * 1e6, 1e9):
                for azimuth in (0, PI / 2, PI, -PI / 2, 1.0, 7.0):
                    kw = {"rabi_rotation": rotation, "maximum_rabi_rate": rate, "azimuthal_angle": azimuth}
                    cases.append({"scheme": scheme, "fn": "new_%s_control" % scheme, "kw": kw})
    return cases


def corpse(theta):
    k = math.asin(math.sin(theta / 2) / 2)
    return [
        (2 * PI + theta / 2 - k, 0.0),
        (2 * PI - 2 * k, PI),
        (theta / 2 - k, 0.0),
    ]


def inverse_sinc(value):
    """The solution in (0, pi] of sin(x)/x = value, by bisection."""
    low, high = 1e-12, PI
    for _ in range(200):
        middle = (low + high) / 2
        if math.sin(middle) / middle > value:
            low = middle
        else:
            high = middle
    return (low + high) / 2


def scrofulous(theta, theta_1=None):
    """The documented table, for a given first angle if it only approximately solves its equation."""
    if theta_1 is None:
        theta_1 = inverse_sinc(2 * math.cos(theta / 2) / PI)
    phi_1 = math.acos(max(-1.0, min(1.0, -PI * math.cos(theta_1) / (2 * theta_1 * math.sin(theta / 2)))))
    phi_2 = phi_1 - math.acos(-PI / (2 * theta_1))
    return [(theta_1, phi_1), (PI, phi_2), (theta_1, phi_1)]


def documented(scheme, theta, theta_1=None):
    """[(rotation, phase offset)] of the documented table."""
    star = math.acos(max(-1.0, -theta / (4 * PI))) if theta <= 4 * PI * (1 + 1e-12) else None
    bb1_tail = [(PI, star), (2 * PI, None if star is None else 3 * star), (PI, star)]
    sk1_tail = [(2 * PI, None if star is None else -star), (2 * PI, star)]
    if scheme == "primitive":
        return [(theta, 0.0)]
    if scheme == "bb1":
        return [(theta, 0.0)] + bb1_tail
    if scheme == "sk1":
        return [(theta, 0.0)] + sk1_tail
    if scheme == "corpse":
        return corpse(theta)
    if scheme == "corpse_in_bb1":
        return corpse(theta) + bb1_tail
    if scheme == "corpse_in_sk1":
        return corpse(theta) + sk1_tail
    if scheme == "scrofulous":
        return scrofulous(theta, theta_1)
    if scheme == "corpse_in_scrofulous":
        result = []
        for angle, phase in scrofulous(theta, theta_1):
            result += [(a, p + phase) for a, p in corpse(angle)]
        return result
    raise KeyError(scheme)


GAUSSIAN_LIMIT = math.sqrt(2 * PI) / 0.1


@st.composite
def gaussian(draw, ctx, most=120):
    T = draw(gen.positive(ctx, 1e-13, 1e9, nice=(1e-6, 1e-3)))
    ratio = draw(
        st.one_of(
            st.integers(2, most).map(float),
            st.floats(1.01, most),
            st.integers(1, most).map(lambda k: k + 0.5),
            st.integers(2, most).map(lambda k: k - 1e-3),
            st.integers(2, most).map(lambda k: k + 1e-3),
        )
    )
    power = draw(
        st.one_of(gen.log_uniform(1.0001, 1e4), st.floats(1.0001, 20.0),
                  gen.log_uniform(1e-9, 1e-2).map(lambda v: 1 + v))
    )
    cycles = draw(
        st.one_of(
            st.just(0.0),
            st.floats(0.05, 40.0),
            st.floats(-40.0, -0.05),
            st.integers(1, 30).map(float),
            st.integers(1, 60).map(lambda k: k / 4),
            gen.log_uniform(1e-10, 0.05),
            gen.log_uniform(1e-10, 0.05).map(lambda v: -v),
        )
    )
    if draw(st.integers(0, 9)) == 0:
        # everything may also be integers
        T = draw(st.integers(2, min(most, 60)))
        return {
            "maximum_rabi_rate": math.ceil(power * GAUSSIAN_LIMIT / T),
            "minimum_segment_duration": draw(st.integers(1, T - 1)),
            "duration": T,
            "modulation_frequency": draw(st.integers(-2, 2)),
        }
    return {
        "maximum_rabi_rate": power * GAUSSIAN_LIMIT / T,
        "minimum_segment_duration": T / ratio,
        "duration": T,
        "modulation_frequency": cycles / T,
    }


def gaussian_reference(kw, n):
    """
    (relative envelope times modulation) of each of n equal segments, or None if
    the modulation is (nearly) zero on all of them.
    """
    T, f = kw["duration"], kw["modulation_frequency"]
    result = []
    for j in range(n):
        x = (j + 0.5) / n - 0.5  # centre of the segment relative to the middle
        envelope = math.exp(-0.5 * (x / 0.1) ** 2)
        result.append(envelope * (math.sin(2 * PI * f * T * x) if f else 1.0))
    return result
