"""focal-plane metres -> pixels of the ideal frame camera; local UTM set-up."""
import numpy as np
from pyproj import transform
from resippy.utils import proj_utils
from resippy.photogrammetry import crs_defs
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pinhole_camera import PinholeCamera
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc import IdealPinholeFpaLocalUtmPointCalc
from specs.P03 import _mag, collinearity__spec


def _pixels(u, v, nx, ny, px, py, fx, fy):
    x = u / px + nx / 2
    y = v / py + ny / 2
    if fx:
        x = -u / px + nx / 2
    if fy:
        y = -v / py + ny / 2
    return x, y


def local__code(X: Scalar, Y: Scalar, Z: Scalar, proj: Val, o: Scalar, p: Scalar, k: Scalar, nx: Scalar, ny: Scalar, px: Scalar, py: Scalar,
                f: Scalar, zu: Str, ou: Str, pu: Str, ku: Str, pxu: Str, pyu: Str, fu: Str, fx: Bool, fy: Bool, lons: Arr(1), lats: Arr(1), alts: Arr(1)):
    c = IdealPinholeFpaLocalUtmPointCalc.init_from_local_params(X, Y, Z, proj, o, p, k, nx, ny, px, py, f, alt_units=zu, omega_units=ou, phi_units=pu,
        kappa_units=ku, pixel_pitch_x_units=pxu, pixel_pitch_y_units=pyu, focal_length_units=fu, flip_x=fx, flip_y=fy)
    return (c.lon_lat_alt_to_pixel_x_y(lons, lats, alts), c.get_projection(), c.get_approximate_lon_lat_center(),
            c._pixel_x_y_alt_to_lon_lat_native(lons, lats, alts))


def local__spec(X, Y, Z, proj, o, p, k, nx, ny, px, py, f, zu, ou, pu, ku, pxu, pyu, fu, fx, fy, lons, lats, alts):
    """pixel = (flip * plane coordinate) / pitch + half the pixel count, each axis with its own pitch, count, flip and unit"""
    u, v = collinearity__spec(X, Y, Z, o, p, k, f, 'meters', 'meters', zu, ou, pu, ku, fu, lons, lats, alts)
    return (_pixels(u, v, nx, ny, _mag(px, pxu, 'meters'), _mag(py, pyu, 'meters'), fx, fy), proj, (X, Y), None)


def wgs84__code(lon: Scalar, lat: Scalar, Z: Scalar, o: Scalar, p: Scalar, k: Scalar, nx: Scalar, ny: Scalar, px: Scalar, py: Scalar,
                f: Scalar, zu: Str, ou: Str, pu: Str, ku: Str, pxu: Str, pyu: Str, fu: Str, fx: Bool, fy: Bool, lons: Arr(1), lats: Arr(1), alts: Arr(1)):
    c = IdealPinholeFpaLocalUtmPointCalc.init_from_wgs84_params(lon, lat, Z, o, p, k, nx, ny, px, py, f, alt_units=zu, omega_units=ou, phi_units=pu,
        kappa_units=ku, pixel_pitch_x_units=pxu, pixel_pitch_y_units=pyu, focal_length_units=fu, flip_x=fx, flip_y=fy)
    return c._lon_lat_alt_to_pixel_x_y_native(lons, lats, alts), c.get_projection(), c.get_approximate_lon_lat_center()


def wgs84__spec(lon, lat, Z, o, p, k, nx, ny, px, py, f, zu, ou, pu, ku, pxu, pyu, fu, fx, fy, lons, lats, alts):
    """as local parameters at the sensor's easting and northing in its own UTM zone"""
    proj = proj_utils.decimal_degrees_to_local_utm_proj(lon, lat)
    X, Y = transform(crs_defs.PROJ_4326, proj, lon, lat)
    u, v = collinearity__spec(X, Y, Z, o, p, k, f, 'meters', 'meters', zu, ou, pu, ku, fu, lons, lats, alts)
    return (_pixels(u, v, nx, ny, _mag(px, pxu, 'meters'), _mag(py, pyu, 'meters'), fx, fy), proj, (X, Y))


def ifov__code(lon: Scalar, lat: Scalar, nx: Scalar, ny: Scalar, px: Scalar, py: Scalar, f: Scalar, proj: Val, u: Str):
    c = IdealPinholeFpaLocalUtmPointCalc.init_from_local_params(lon, lat, 0, proj, 0, 0, 0, nx, ny, px, py, f)
    return c.compute_ifov_x(), c.compute_ifov_y(), c.compute_ifov_x(output_units=u), c.compute_ifov_y(output_units=u)


def ifov__spec(lon, lat, nx, ny, px, py, f, proj, u):
    """angle subtended by one pixel, in microradians unless asked otherwise; default pitch in micrometres, focal length in millimetres"""
    a = np.arctan(px * 1e-6 / (f * 1e-3))
    b = np.arctan(py * 1e-6 / (f * 1e-3))
    return a * 1000000, b * 1000000, _mag(a, 'radians', u), _mag(b, 'radians', u)


INCLUDE = ['P41.frame', 'P03.collinearity', 'P04.default_order', 'P40.utm']
