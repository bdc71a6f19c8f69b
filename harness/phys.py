"""
Reference physics in plain Python: rotations of a single qubit.

A unitary is a unit quaternion (w, x, y, z) = w - i (x sx + y sy + z sz), so a
rotation by t about the unit vector u is (cos t/2, sin t/2 * u).
"""
import math

IDENTITY = (1.0, 0.0, 0.0, 0.0)


def rotation(angle, axis):
    norm = math.sqrt(sum(v * v for v in axis))
    if norm == 0:
        return IDENTITY
    c, s = math.cos(angle / 2), math.sin(angle / 2) / norm
    return (c, s * axis[0], s * axis[1], s * axis[2])


def multiply(a, b):
    """a after b: the operator product a b."""
    aw, ax, ay, az = a
    bw, bx, by, bz = b
    return (
        aw * bw - ax * bx - ay * by - az * bz,
        aw * bx + bw * ax + ay * bz - az * by,
        aw * by + bw * ay + az * bx - ax * bz,
        aw * bz + bw * az + ax * by - ay * bx,
    )


def distance(a, b):
    """Distance up to a global sign."""
    plus = math.sqrt(sum((p - q) ** 2 for p, q in zip(a, b)))
    minus = math.sqrt(sum((p + q) ** 2 for p, q in zip(a, b)))
    return min(plus, minus)


def conjugate_vector(u, v):
    """u^dagger (v.sigma) u as a vector."""
    w, x, y, z = u
    inverse = (w, -x, -y, -z)
    result = multiply(multiply(inverse, (0.0,) + tuple(v)), u)
    return result[1:]


def segment(rabi, azimuth, detuning, duration):
    """Rotation of one constant segment: (angle, axis vector)."""
    vector = (rabi * math.cos(azimuth), rabi * math.sin(azimuth), detuning)
    amplitude = math.sqrt(rabi * rabi + detuning * detuning)
    return amplitude * duration, vector


def evolve(segments):
    """segments: iterable of (rabi, azimuth, detuning, duration)."""
    total = IDENTITY
    for item in segments:
        total = multiply(rotation(*segment(*item)), total)
    return total


def amplitude_sensitivity(segments):
    """
    First-order change of the unitary per common relative error of the Rabi
    rates, as a vector (half-angle units): sum of toggled generators.
    """
    total = IDENTITY
    sensitivity = [0.0, 0.0, 0.0]
    for rabi, azimuth, detuning, duration in segments:
        # only valid for segments without detuning, as all predefined ones are
        assert detuning == 0
        vector = (math.cos(azimuth), math.sin(azimuth), 0.0)
        toggled = conjugate_vector(total, vector)
        for k in range(3):
            sensitivity[k] += 0.5 * rabi * duration * toggled[k]
        total = multiply(rotation(rabi * duration, vector), total)
    return sensitivity


def detuning_sensitivity(segments):
    """
    First-order change of the unitary per constant detuning: the integral of
    the toggled sigma_z / 2, as a vector.
    """
    total = IDENTITY
    sensitivity = [0.0, 0.0, 0.0]
    for rabi, azimuth, detuning, duration in segments:
        assert detuning == 0
        axis = (math.cos(azimuth), math.sin(azimuth), 0.0)
        # inside the segment: U(t)^+ sz U(t) rotates z about the axis
        # z -> cos(a) z + sin(a) (z x axis) since the axis is equatorial
        angle = rabi * duration
        if rabi > 0:
            integral_cos = math.sin(angle) / rabi
            integral_sin = (1 - math.cos(angle)) / rabi
        else:
            integral_cos, integral_sin = duration, 0.0
        z = (0.0, 0.0, 1.0)
        cross = (-axis[1], axis[0], 0.0)  # z x axis
        local = [0.5 * (integral_cos * z[k] + integral_sin * cross[k]) for k in range(3)]
        toggled = conjugate_vector(total, local)
        for k in range(3):
            sensitivity[k] += toggled[k]
        total = multiply(rotation(angle, axis), total)
    return sensitivity


def norm(vector):
    return math.sqrt(sum(v * v for v in vector))
