"""lon/lat/alt -> pixel and pixel/alt -> lon/lat wrappers."""
import numpy as np
import pyproj
from specs.decl import ANY
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc import AbstractEarthOverheadPointCalc



def one_d__code(pc: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'),
                lons: Arr(1), lats: Arr(1), alts: Arr(1), proj: Opt, band: Any):
    return pc.lon_lat_alt_to_pixel_x_y(lons, lats, alts, world_proj=proj, band=band)


def one_d__spec(pc, lons, lats, alts, proj, band):
    """coordinates are brought to the native projection, then mapped by the sensor's own model with the requested band"""
    native = pc.get_projection()
    if proj is None or proj.srs == native.srs:
        return pc._lon_lat_alt_to_pixel_x_y_native(lons, lats, alts, band)
    x, y, z = pyproj.transform(proj, native, lons, lats, alts)
    return pc._lon_lat_alt_to_pixel_x_y_native(x, y, z, band)


def no_alt__code(pc: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'),
                 lons: Arr(1), lats: Arr(1), z: Scalar):
    return pc.lon_lat_alt_to_pixel_x_y(lons, lats, None), pc.lon_lat_alt_to_pixel_x_y(lons, lats, z)


def no_alt__spec(pc, lons, lats, z):
    """a missing altitude is zero and a single altitude applies to every point"""
    return (pc._lon_lat_alt_to_pixel_x_y_native(lons, lats, np.zeros(lons.shape), None),
            pc._lon_lat_alt_to_pixel_x_y_native(lons, lats, np.zeros(lons.shape) + z, None))


def two_d__code(pc: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'),
                lons: Arr(2), lats: Arr(2), alts: Arr(2), proj: Opt, band: Any):
    return pc.lon_lat_alt_to_pixel_x_y(lons, lats, alts, world_proj=proj, band=band)


def two_d__spec(pc, lons, lats, alts, proj, band):
    """a grid gives the same answer as its flattened points, put back in row-major order"""
    ny, nx = lons.shape
    f = pc.lon_lat_alt_to_pixel_x_y(np.reshape(lons, ny * nx), np.reshape(lats, ny * nx), np.reshape(alts, ny * nx), proj, band)
    return np.reshape(f[0], (ny, nx)), np.reshape(f[1], (ny, nx))


def number__code(pc: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'),
                 lon: Scalar, lat: Scalar, alt: Scalar, proj: Opt, band: Any):
    return pc.lon_lat_alt_to_pixel_x_y(lon, lat, alt, world_proj=proj, band=band)


def number__spec(pc, lon, lat, alt, proj, band):
    """a single point gives the first pixel of the one-element array call"""
    f = pc.lon_lat_alt_to_pixel_x_y(np.array([lon]), np.array([lat]), np.array([alt]), proj, band)
    return f[0][0], f[1][0]


def inverse__code(pc: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'),
                  xs: Val, ys: Val, alts: Any, proj: Opt, band: Any, thr: Scalar, n: Scalar):
    return pc.pixel_x_y_alt_to_lon_lat(xs, ys, alts, world_proj=proj, band=band, pixel_error_threshold=thr, max_iter=n)


def inverse__spec(pc, xs, ys, alts, proj, band, thr, n):
    """the sensor's closed form when it has one, else the solver with the caller's threshold, iteration bound and band; then native -> requested projection"""
    closed = pc._pixel_x_y_alt_to_lon_lat_native(xs, ys, alts, band)
    if closed is not None:
        lon, lat = closed
    else:
        lon, lat = pc._pixel_x_y_alt_to_lon_lat_native_solver(xs, ys, alts, d_lon=None, d_lat=None, band=band, max_pixel_error=thr, max_iter=n)
    native = pc.get_projection()
    if proj is None or proj.srs == native.srs:
        return lon, lat
    a, b = pyproj.transform(native, proj, lon, lat)
    return a, b


class Linear(AbstractEarthOverheadPointCalc):
    """a sensor whose pixels are sums and differences of its coordinates"""

    def _lon_lat_alt_to_pixel_x_y_native(self, lons, lats, alts=None, band=None):
        return 2 * lons + alts, 3 * lats - alts

    def _pixel_x_y_alt_to_lon_lat_native(self, pixel_xs, pixel_ys, alts=None, band=None):
        return pixel_xs - alts, pixel_ys + alts


def grid_shape__code(g: Arr(2), z: Scalar, proj: Val):
    c = Linear()
    c.set_projection(proj)
    return c.lon_lat_alt_to_pixel_x_y(g, g, g), c.lon_lat_alt_to_pixel_x_y(g, g, z), c.lon_lat_alt_to_pixel_x_y(g, g, None)


def grid_shape__spec(g, z, proj):
    """the answer for a grid has the grid's shape and order, whether altitudes come as a grid, as one number or not at all"""
    return (2 * g + g, 3 * g - g), (2 * g + z, 3 * g - z), (2 * g, 3 * g)


def inverse_defaults__code(pc: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'),
                           xs: Val, ys: Val, alts: Any):
    return pc.pixel_x_y_alt_to_lon_lat(xs, ys, alts)


def inverse_defaults__spec(pc, xs, ys, alts):
    """by default the answer is in the native projection, of no particular band, to 0.01 pixels in at most 1000 iterations"""
    return pc.pixel_x_y_alt_to_lon_lat(xs, ys, alts, world_proj=pc.get_projection(), band=None, pixel_error_threshold=0.01, max_iter=1000)


OPTS = {
    'inverse_defaults': {'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc._pixel_x_y_alt_to_lon_lat_native_solver']},
    'inverse': {'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc._pixel_x_y_alt_to_lon_lat_native_solver']}}


INCLUDE = ['P41.asked']
