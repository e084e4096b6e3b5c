"""fixtured camera composition."""
import numpy as np
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.fixtured_camera import FixturedCamera
from resippy.utils.units import ureg
from specs.P03 import _mag
from specs.P04 import _omega, _phi, _kappa


def position__code(fx: Scalar, fy: Scalar, fz: Scalar, m: Mat(3, 3), x: Scalar, y: Scalar, z: Scalar, xu: Str, yu: Str, zu: Str):
    c = FixturedCamera()
    c.set_fixture_xyz(fx, fy, fz)
    c.set_fixture_orientation(m)
    c.set_relative_camera_xyz(x, y, z, x_units=xu, y_units=yu, z_units=zu)
    return c.get_camera_absolute_xyz(), c.get_fixture_xyz()


def position__spec(fx, fy, fz, m, x, y, z, xu, yu, zu):
    """fixture position + (lever arm in metres) rotated by the fixture orientation, as a row vector"""
    a, b, c = _mag(x, xu, 'meters'), _mag(y, yu, 'meters'), _mag(z, zu, 'meters')
    return ((fx + a * m[0, 0] + b * m[1, 0] + c * m[2, 0], fy + a * m[0, 1] + b * m[1, 1] + c * m[2, 1],
             fz + a * m[0, 2] + b * m[1, 2] + c * m[2, 2]), (fx, fy, fz))


def _rot(o, p, k, order):
    if order == 'rpy':
        return _kappa(k) @ _phi(p) @ _omega(o)
    if order == 'ryp':
        return _phi(p) @ _kappa(k) @ _omega(o)
    if order == 'pry':
        return _kappa(k) @ _omega(o) @ _phi(p)
    if order == 'pyr':
        return _omega(o) @ _kappa(k) @ _phi(p)
    if order == 'yrp':
        return _phi(p) @ _omega(o) @ _kappa(k)
    return _omega(o) @ _phi(p) @ _kappa(k)


def orientation__code(r: Scalar, p: Scalar, y: Scalar, br: Scalar, bp: Scalar, by: Scalar, u1: Str, u2: Str, u3: Str, v1: Str, v2: Str, v3: Str):
    out = []
    for o1 in ('rpy', 'ypr', 'pyr'):
        for o2 in ('rpy', 'yrp', 'ryp', 'pry'):
            c = FixturedCamera()
            c.set_fixture_orientation_by_roll_pitch_yaw(r, p, y, roll_units=u1, pitch_units=u2, yaw_units=u3, order=o1)
            c.set_boresight_matrix_from_camera_relative_rpy_params(br, bp, by, roll_units=v1, pitch_units=v2, yaw_units=v3, order=o2)
            out.append(c.get_camera_absolute_M_matrix())
    return out


def orientation__spec(r, p, y, br, bp, by, u1, u2, u3, v1, v2, v3):
    """absolute orientation = boresight @ fixture, each built from its own angles, units and order"""
    out = []
    for o1 in ('rpy', 'ypr', 'pyr'):
        for o2 in ('rpy', 'yrp', 'ryp', 'pry'):
            a = _rot(_mag(r, u1, 'radians'), _mag(p, u2, 'radians'), _mag(y, u3, 'radians'), o1)
            b = _rot(_mag(br, v1, 'radians'), _mag(bp, v2, 'radians'), _mag(by, v3, 'radians'), o2)
            out.append(b @ a)
    return out


def defaults__code(r: Scalar, p: Scalar, y: Scalar, br: Scalar, bp: Scalar, by: Scalar, x: Scalar):
    c = FixturedCamera()
    c.set_fixture_xyz(x, 0, 0)
    c.set_fixture_orientation_by_roll_pitch_yaw(r, p, y)
    c.set_boresight_matrix_from_camera_relative_rpy_params(br, bp, by)
    c.set_relative_camera_xyz(0, 0, 0)
    return c.get_camera_absolute_M_matrix(), c.get_camera_absolute_xyz()


def defaults__spec(r, p, y, br, bp, by, x):
    """defaults: radians, metres, order rpy; zero lever arm leaves the fixture position"""
    return _rot(br, bp, by, 'rpy') @ _rot(r, p, y, 'rpy'), (x, 0, 0)


INCLUDE = ['P41.fixture', 'P04.orders']
