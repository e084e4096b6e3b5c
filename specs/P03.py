"""pinhole collinearity."""
import numpy as np
from resippy.utils.units import ureg
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pinhole_camera import PinholeCamera
from specs.P04 import _omega, _phi, _kappa


def _mag(v, units, to):
    return (v * ureg.parse_expression(units)).to(ureg[to]).magnitude


def collinearity__code(X: Scalar, Y: Scalar, Z: Scalar, om: Scalar, ph: Scalar, ka: Scalar, f: Scalar,
                       xu: Str, yu: Str, zu: Str, ou: Str, pu: Str, ku: Str, fu: Str, wx, wy, wz):
    c = PinholeCamera()
    c.init_pinhole_from_coeffs(X, Y, Z, om, ph, ka, f, x_units=xu, y_units=yu, z_units=zu, omega_units=ou,
                               phi_units=pu, kappa_units=ku, focal_length_units=fu)
    return c.world_to_image_plane(wx, wy, wz)


def collinearity__spec(X, Y, Z, om, ph, ka, f, xu, yu, zu, ou, pu, ku, fu, wx, wy, wz):
    """image = -f (rotated offset) / (rotated depth), every parameter converted from its own unit"""
    o = _mag(om, ou, 'radians')
    p = _mag(ph, pu, 'radians')
    k = _mag(ka, ku, 'radians')
    m = _kappa(k) @ _phi(p) @ _omega(o)
    dx = wx - _mag(X, xu, 'meters')
    dy = wy - _mag(Y, yu, 'meters')
    dz = wz - _mag(Z, zu, 'meters')
    u = m[0, 0] * dx + m[0, 1] * dy + m[0, 2] * dz
    v = m[1, 0] * dx + m[1, 1] * dy + m[1, 2] * dz
    w = m[2, 0] * dx + m[2, 1] * dy + m[2, 2] * dz
    ff = _mag(f, fu, 'meters')
    return -ff * u / w, -ff * v / w


def state__code(X: Scalar, Y: Scalar, Z: Scalar, om: Scalar, ph: Scalar, ka: Scalar, f: Scalar):
    c = PinholeCamera()
    c.init_pinhole_from_coeffs(X, Y, Z, om, ph, ka, f)
    return c.X, c.Y, c.Z, c.omega, c.phi, c.kappa, c.f, c.M


def state__spec(X, Y, Z, om, ph, ka, f):
    """default units: metres, radians, millimetres of focal length"""
    return X, Y, Z, om, ph, ka, f / 1000, _kappa(ka) @ _phi(ph) @ _omega(om)


INCLUDE = ['P41.pinhole', 'P04.default_order', 'P04.orders']
