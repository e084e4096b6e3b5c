"""ray casting onto a terrain model."""
import numpy as np
from pyproj import transform
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc import AbstractEarthOverheadPointCalc


def cast__code(pc: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'),
               dem: Obj('resippy.photogrammetry.dem.abstract_dem.AbstractDem'), xs: Arr(1), ys: Arr(1), step: Scalar, hi: Opt, lo: Opt, band: Any):
    return pc._pixel_x_y_to_lon_lat_ray_caster_native(xs, ys, dem, step, hi, lo, band=band)


def cast__spec(pc, dem, xs, ys, step, hi, lo, band):
    """march each ray from 1% above the highest to 1% below the lowest terrain, in steps no longer than the sample distance; the answer
    interpolates between the last sample above the terrain and the first one below it"""
    top = dem.get_highest_alt() if hi is None else hi
    bottom = dem.get_lowest_alt() if lo is None else lo
    span = top - bottom
    n = len(xs)
    if span == 0:
        lon, lat = pc.pixel_x_y_alt_to_lon_lat(xs, ys, top, band=band)
        return lon, lat, np.zeros(n) + top
    top = top + 0.01 * span
    bottom = bottom - 0.01 * span
    lon0, lat0 = pc.pixel_x_y_alt_to_lon_lat(xs, ys, top, band=band)
    lon1, lat1 = pc.pixel_x_y_alt_to_lon_lat(xs, ys, bottom, band=band)
    length = np.sqrt(np.square(lon0 - lon1) + np.square(lat0 - lat1))
    k = int(np.ceil(np.max(length) / step) + 1)
    f = np.zeros((n, k)) + np.linspace(0, 1, k)
    lons = np.transpose(np.tile(lon1 - lon0, (k, 1))) * f + np.transpose(np.tile(lon0, (k, 1)))
    lats = np.transpose(np.tile(lat1 - lat0, (k, 1))) * f + np.transpose(np.tile(lat0, (k, 1)))
    ground = dem.get_elevations(lons, lats, world_proj=pc.get_projection())
    ray = np.linspace(top, bottom, k)
    first = np.zeros(n, dtype=int)
    for i in reversed(range(k)):
        first[ground[:, i] > ray[i]] = i
    px = np.arange(0, n)
    below = first
    above = first - 1
    below = above + 1
    g0 = ground[px, above]
    slope_g = ground[px, below] - g0
    slope_r = ray[1] - ray[0]
    t = (g0 - ray[above]) / (slope_r - slope_g)
    lon = lons[px, above] + t * (lons[px, below] - lons[px, above])
    lat = lats[px, above] + t * (lats[px, below] - lats[px, above])
    return lon, lat, g0 + t * slope_g


def grid__code(pc: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'),
               dem: Obj('resippy.photogrammetry.dem.abstract_dem.AbstractDem'), xs: Arr(2), ys: Arr(2), step: Scalar, hi: Scalar, lo: Scalar, band: Any):
    return pc._pixel_x_y_to_lon_lat_ray_caster_native(xs, ys, dem, step, hi, lo, band=band)


def grid__spec(pc, dem, xs, ys, step, hi, lo, band):
    """a grid of pixels gives the flattened answer in row-major order"""
    ny, nx = xs.shape
    a, b, c = pc._pixel_x_y_to_lon_lat_ray_caster_native(np.reshape(xs, nx * ny), np.reshape(ys, nx * ny), dem, step, hi, lo, band=band)
    return np.reshape(a, (ny, nx)), np.reshape(b, (ny, nx)), np.reshape(c, (ny, nx))


def reproject__code(pc: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'),
                    dem: Val, xs: Arr(1), ys: Arr(1), proj: Opt, step: Opt, hi: Any, lo: Any, band: Any):
    return pc.pixel_x_y_to_lon_lat_alt(xs, ys, dem, proj, step, hi, lo, band)


def reproject__spec(pc, dem, xs, ys, proj, step, hi, lo, band):
    """five-metre sampling unless given; only longitude and latitude are re-projected, and only when the projections differ"""
    native = pc.get_projection()
    lon, lat, alt = pc._pixel_x_y_to_lon_lat_ray_caster_native(xs, ys, dem, 5 if step is None else step, hi, lo, band=band)
    if proj is None or proj.srs == native.srs:
        return lon, lat, alt
    a, b = transform(native, proj, lon, lat)
    return a, b, alt


OPTS = {
    'cast': {'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc.pixel_x_y_alt_to_lon_lat']},
    'grid': {'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc.pixel_x_y_alt_to_lon_lat']},
    'reproject': {'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc._pixel_x_y_to_lon_lat_ray_caster_native']},
}


INCLUDE = ['P15.constant', 'P15.nodata']
