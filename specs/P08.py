"""OpenCV (Brown) camera."""
import numpy as np
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.opencv_point_calc import OpenCVPointCalc
from specs.P04 import _omega, _phi, _kappa


def _m(o, p, k):
    return _kappa(k) @ _phi(p) @ _omega(o)


def brown__code(fx: Scalar, fy: Scalar, cx: Scalar, cy: Scalar, k1: Scalar, k2: Scalar, k3: Scalar, p1: Scalar, p2: Scalar, pp: Scalar,
                X: Scalar, Y: Scalar, Z: Scalar, o: Scalar, p: Scalar, k: Scalar, lons: Arr(1), lats: Arr(1), alts: Arr(1)):
    d = {'fx_pixels': fx, 'fy_pixels': fy, 'cx_pixels': cx, 'cy_pixels': cy, 'k1': k1, 'k2': k2, 'k3': k3, 'p1': p1, 'p2': p2, 'pixel_pitch_microns': pp,
         'x_offset_meters': 0.0, 'y_offset_meters': 0.0, 'z_offset_meters': 0.0, 'omega_offset_radians': 0.0, 'phi_offset_radians': 0.0, 'kappa_offset_radians': 0.0}
    c = OpenCVPointCalc.init_from_params(d)
    c.init_extrinsic(X, Y, Z, o, p, k)
    return c.lon_lat_alt_to_pixel_x_y(lons, lats, alts), c._pixel_x_y_alt_to_lon_lat_native(lons, lats, alts)


def brown__spec(fx, fy, cx, cy, k1, k2, k3, p1, p2, pp, X, Y, Z, o, p, k, lons, lats, alts):
    """u = fx x'' + cx, v = -fy y'' + cy with Brown's radial k1,k2,k3 and tangential p1,p2 terms of the camera-frame ratios"""
    m = _m(o, p, k)
    a = m[0, 0] * (lons - X) + m[0, 1] * (lats - Y) + m[0, 2] * (alts - Z)
    b = m[1, 0] * (lons - X) + m[1, 1] * (lats - Y) + m[1, 2] * (alts - Z)
    c = m[2, 0] * (lons - X) + m[2, 1] * (lats - Y) + m[2, 2] * (alts - Z)
    x = a / c
    y = b / c
    r2 = x ** 2 + y ** 2
    rad = 1 + k1 * r2 + k2 * r2 ** 2 + k3 * r2 ** 3
    xd = x * rad + 2 * p1 * x * y + p2 * (r2 + 2 * x ** 2)
    yd = y * rad + p1 * (r2 + 2 * y ** 2) + 2 * p2 * x * y
    return (fx * xd + cx, -fy * yd + cy), None


def exterior__code(X: Scalar, Y: Scalar, Z: Scalar, o: Scalar, p: Scalar, k: Scalar, x0: Scalar, y0: Scalar, z0: Scalar, o0: Scalar, p0: Scalar, k0: Scalar):
    c = OpenCVPointCalc()
    c.init_offsets(x0, y0, z0, o0, p0, k0)
    c.init_extrinsic(X, Y, Z, o, p, k)
    return c._fixture.get_camera_absolute_M_matrix(), c._fixture.get_camera_absolute_xyz()


def exterior__spec(X, Y, Z, o, p, k, x0, y0, z0, o0, p0, k0):
    """camera pose = fixture pose composed with the boresight angles and lever arm, radians and metres"""
    m = _m(o, p, k)
    return (_m(o0, p0, k0) @ m, (X + x0 * m[0, 0] + y0 * m[1, 0] + z0 * m[2, 0], Y + x0 * m[0, 1] + y0 * m[1, 1] + z0 * m[2, 1],
            Z + x0 * m[0, 2] + y0 * m[1, 2] + z0 * m[2, 2]))


def params__code(fx: Scalar, fy: Scalar, cx: Scalar, cy: Scalar, k1: Scalar, k2: Scalar, k3: Scalar, p1: Scalar, p2: Scalar, pp: Scalar,
                 x0: Scalar, y0: Scalar, z0: Scalar, o0: Scalar, p0: Scalar, q0: Scalar):
    d = {'fx_pixels': fx, 'fy_pixels': fy, 'cx_pixels': cx, 'cy_pixels': cy, 'k1': k1, 'k2': k2, 'k3': k3, 'p1': p1, 'p2': p2, 'pixel_pitch_microns': pp,
         'x_offset_meters': x0, 'y_offset_meters': y0, 'z_offset_meters': z0, 'omega_offset_radians': o0, 'phi_offset_radians': p0, 'kappa_offset_radians': q0}
    c = OpenCVPointCalc.init_from_params(d)
    c.init_extrinsic(0, 0, 0, 0, 0, 0)
    return c._fixture.get_camera_absolute_M_matrix(), c._fixture.get_camera_absolute_xyz()


def params__spec(fx, fy, cx, cy, k1, k2, k3, p1, p2, pp, x0, y0, z0, o0, p0, q0):
    """the offset entries of the parameter dictionary give the boresight angles and lever arm"""
    return _m(o0, p0, q0), (x0, y0, z0)


def mounted__code(fx: Scalar, fy: Scalar, cx: Scalar, cy: Scalar, k1: Scalar, k2: Scalar, k3: Scalar, p1: Scalar, p2: Scalar, f: Mat(3, 3), b: Mat(3, 3),
                  X: Scalar, Y: Scalar, Z: Scalar, x0: Scalar, y0: Scalar, z0: Scalar, lons: Arr(1), lats: Arr(1), alts: Arr(1)):
    c = OpenCVPointCalc()
    c.init_intrinsic(fx, fy, cx, cy, k1, k2, k3, p1, p2, 1.0)
    c._fixture.set_fixture_xyz(X, Y, Z)
    c._fixture.set_fixture_orientation(f)
    c._fixture.set_relative_camera_xyz(x0, y0, z0)
    c._fixture.set_boresight_matrix(b)
    return c._lon_lat_alt_to_pixel_x_y_native(lons, lats, alts)


def mounted__spec(fx, fy, cx, cy, k1, k2, k3, p1, p2, f, b, X, Y, Z, x0, y0, z0, lons, lats, alts):
    """the camera sits at the rotated lever arm and looks along boresight times fixture"""
    dx = lons - (X + x0 * f[0, 0] + y0 * f[1, 0] + z0 * f[2, 0])
    dy = lats - (Y + x0 * f[0, 1] + y0 * f[1, 1] + z0 * f[2, 1])
    dz = alts - (Z + x0 * f[0, 2] + y0 * f[1, 2] + z0 * f[2, 2])
    m = b @ f
    c = m[2, 0] * dx + m[2, 1] * dy + m[2, 2] * dz
    x = (m[0, 0] * dx + m[0, 1] * dy + m[0, 2] * dz) / c
    y = (m[1, 0] * dx + m[1, 1] * dy + m[1, 2] * dz) / c
    r2 = x ** 2 + y ** 2
    rad = 1 + k1 * r2 + k2 * r2 ** 2 + k3 * r2 ** 3
    xd = x * rad + 2 * p1 * x * y + p2 * (r2 + 2 * x ** 2)
    yd = y * rad + p1 * (r2 + 2 * y ** 2) + 2 * p2 * x * y
    return fx * xd + cx, -fy * yd + cy


INCLUDE = ['P41.brown', 'P03.collinearity', 'P04.orders', 'P06.position', 'P06.orientation']
