"""unit conversions at the entry points that take units."""
import numpy as np
from resippy.utils.units import ureg, unit_constants
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pinhole_camera import PinholeCamera
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.fixtured_camera import FixturedCamera
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc import IdealPinholeFpaLocalUtmPointCalc
from specs.P36 import _cam

PF = IdealPinholeFpaLocalUtmPointCalc


def _to(v, u, want):
    return (v * ureg.parse_expression(u)).to(want).magnitude


def _pin(c):
    return c.X, c.Y, c.Z, c.omega, c.phi, c.kappa, c.f, c.M


def pinhole__code(X: Scalar, Y: Scalar, Z: Scalar, o: Scalar, p: Scalar, k: Scalar, f: Scalar, xu: Str, yu: Str, zu: Str, ou: Str, pu: Str, ku: Str, fu: Str):
    c = PinholeCamera()
    c.init_pinhole_from_coeffs(X, Y, Z, o, p, k, f, xu, yu, zu, ou, pu, ku, fu)
    return _pin(c)


def pinhole__spec(X, Y, Z, o, p, k, f, xu, yu, zu, ou, pu, ku, fu):
    """the camera given in any units is the camera given in metres and radians after conversion"""
    c = PinholeCamera()
    c.init_pinhole_from_coeffs(_to(X, xu, 'meters'), _to(Y, yu, 'meters'), _to(Z, zu, 'meters'), _to(o, ou, 'radians'), _to(p, pu, 'radians'),
                               _to(k, ku, 'radians'), _to(f, fu, 'meters'), 'meters', 'meters', 'meters', 'radians', 'radians', 'radians', 'meters')
    return c.X, c.Y, c.Z, c.omega, c.phi, c.kappa, c.f, c.M


def pinhole_values__code(X: Scalar, Y: Scalar, Z: Scalar, o: Scalar, p: Scalar, k: Scalar, f: Scalar):
    c = PinholeCamera()
    c.init_pinhole_from_coeffs(X, Y, Z, o, p, k, f, 'kilometers', 'feet', 'centimeters', 'degrees', 'microradians', 'milliradians', 'micrometer')
    return c.X, c.Y, c.Z, c.omega, c.phi, c.kappa, c.f


def pinhole_values__spec(X, Y, Z, o, p, k, f):
    """a kilometre is 1000 m, a foot 0.3048 m, a degree pi/180 rad"""
    return X * 1000, Y * 0.3048, Z / 100, o * np.pi / 180, p / 1000000, k / 1000, f / 1000000


def fixture__code(x: Scalar, y: Scalar, z: Scalar, r: Scalar, p: Scalar, w: Scalar, xu: Str, yu: Str, zu: Str, ru: Str, pu: Str, wu: Str):
    c = FixturedCamera()
    c.set_fixture_orientation_by_roll_pitch_yaw(r, p, w, ru, pu, wu)
    c.set_relative_camera_xyz(x, y, z, xu, yu, zu)
    c.set_boresight_matrix_from_camera_relative_rpy_params(r, p, w, ru, pu, wu)
    return c.fixture_M, c.x_rel_to_fixture, c.y_rel_to_fixture, c.z_rel_to_fixture, c.boresight_matrix


def fixture__spec(x, y, z, r, p, w, xu, yu, zu, ru, pu, wu):
    """attitudes and lever arms in any units are the same camera as in radians and metres after conversion"""
    c = FixturedCamera()
    a, b, d = _to(r, ru, 'radians'), _to(p, pu, 'radians'), _to(w, wu, 'radians')
    c.set_fixture_orientation_by_roll_pitch_yaw(a, b, d)
    c.set_relative_camera_xyz(_to(x, xu, 'meters'), _to(y, yu, 'meters'), _to(z, zu, 'meters'))
    c.set_boresight_matrix_from_camera_relative_rpy_params(a, b, d)
    return c.fixture_M, c.x_rel_to_fixture, c.y_rel_to_fixture, c.z_rel_to_fixture, c.boresight_matrix


def frame__code(X: Scalar, Y: Scalar, Z: Scalar, proj: Val, o: Scalar, p: Scalar, k: Scalar, nx: Scalar, ny: Scalar, px: Scalar, py: Scalar,
                f: Scalar, zu: Str, ou: Str, pu: Str, ku: Str, pxu: Str, pyu: Str, fu: Str):
    return _cam(PF.init_from_local_params(X, Y, Z, proj, o, p, k, nx, ny, px, py, f, zu, ou, pu, ku, pxu, pyu, fu))


def frame__spec(X, Y, Z, proj, o, p, k, nx, ny, px, py, f, zu, ou, pu, ku, pxu, pyu, fu):
    """frame camera parameters in any units, converted to the documented defaults first"""
    return _cam(PF.init_from_local_params(X, Y, _to(Z, zu, 'meters'), proj, _to(o, ou, 'radians'), _to(p, pu, 'radians'), _to(k, ku, 'radians'), nx, ny,
                                          _to(px, pxu, 'micrometer'), _to(py, pyu, 'micrometer'), _to(f, fu, 'mm')))


def frame_wgs84__code(X: Scalar, Y: Scalar, Z: Scalar, o: Scalar, p: Scalar, k: Scalar, nx: Scalar, ny: Scalar, px: Scalar, py: Scalar,
                      f: Scalar, zu: Str, ou: Str, pu: Str, ku: Str, pxu: Str, pyu: Str, fu: Str):
    return _cam(PF.init_from_wgs84_params(X, Y, Z, o, p, k, nx, ny, px, py, f, zu, ou, pu, ku, pxu, pyu, fu))


def frame_wgs84__spec(X, Y, Z, o, p, k, nx, ny, px, py, f, zu, ou, pu, ku, pxu, pyu, fu):
    """frame camera parameters in any units, converted to the documented defaults first"""
    return _cam(PF.init_from_wgs84_params(X, Y, _to(Z, zu, 'meters'), _to(o, ou, 'radians'), _to(p, pu, 'radians'), _to(k, ku, 'radians'), nx, ny,
                                          _to(px, pxu, 'micrometer'), _to(py, pyu, 'micrometer'), _to(f, fu, 'mm')))


def ifov__code(c: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc.IdealPinholeFpaLocalUtmPointCalc'), u: Str):
    return c.compute_ifov_x(u), c.compute_ifov_y(u), c.compute_ifov_x(), c.compute_ifov_y()


def ifov__spec(c, u):
    """the angle is converted from radians to the requested unit, microradians by default"""
    a = c.compute_ifov_x('radians')
    b = c.compute_ifov_y('radians')
    return _to(a, 'radians', u), _to(b, 'radians', u), a * 1000000, b * 1000000


def constants__code(v: Scalar):
    return (v * unit_constants.meter).to('centimeter').magnitude, (v * unit_constants.micron).to('meters').magnitude, unit_constants.flick, unit_constants.reflectance_zero_to_one


def constants__spec(v):
    """the named constants are the units of the same name"""
    return v * 100, v / 1000000, ureg.flick, ureg.reflectance_zero_to_one


INCLUDE = ['P03.collinearity', 'P06.position', 'P06.orientation', 'P06.defaults', 'P07.local', 'P07.wgs84', 'P08.params', 'P26.units', 'P26.resample',
           'P26.resample_any', 'P36.pose', 'P36.defaults']
