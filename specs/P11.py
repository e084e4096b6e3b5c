"""per-pixel location map (IGM)."""
import numpy as np
from scipy.spatial.ckdtree import cKDTree
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.igm_point_calc import IGMPointCalc


def lookup__code(lon: Arr(2), lat: Arr(2), alt: Arr(2), proj: Val, xs: Arr(1), ys: Arr(1), alts: Arr(1)):
    c = IGMPointCalc(lon, lat, alt, proj)
    return (c._pixel_x_y_alt_to_lon_lat_native(xs, ys), c.lon_image, c.lat_image, c.alt_image, c.get_projection(),
            c.get_approximate_lon_lat_center(), c.bands_coregistered())


def lookup__spec(lon, lat, alt, proj, xs, ys, alts):
    """pixel (x, y) has the coordinates stored at row y, column x; the centre is the middle pixel"""
    ny, nx = lon.shape
    return ((lon[ys, xs], lat[ys, xs]), lon, lat, alt, proj, (lon[int(ny / 2), int(nx / 2)], lat[int(ny / 2), int(nx / 2)]), True)


def altitude__code(lon: Arr(2), lat: Arr(2), alt: Scalar, proj: Val):
    return IGMPointCalc(lon, lat, alt, proj).alt_image


def altitude__spec(lon, lat, alt, proj):
    """a single altitude applies to every pixel"""
    return np.zeros(lon.shape) + alt


def inverse__code(lon: Arr(2), lat: Arr(2), alt: Arr(2), proj: Val, lons: Arr(1), lats: Arr(1), alts: Arr(1)):
    c = IGMPointCalc(lon, lat, alt, proj)
    return c._lon_lat_alt_to_pixel_x_y_native(lons, lats, alts), c._lon_lat_alt_to_pixel_x_y_native(lons, lats, alts)


def inverse__spec(lon, lat, alt, proj, lons, lats, alts):
    """inverse-distance mean of the six nearest pixels, column then row; the cached tree is built from both coordinates"""
    ny, nx = lon.shape
    tree = cKDTree(np.transpose((np.ravel(lon), np.ravel(lat))))
    d, i = tree.query(np.transpose(np.array((lons, lats))), 6)
    rows, cols = np.unravel_index(i, (ny, nx))
    w = 1 / np.where(np.isclose(d, 0), 0.00000001, d)
    t = np.sum(w, axis=1)
    r = np.sum(w * cols, axis=1) / t, np.sum(w * rows, axis=1) / t
    return r, r


INCLUDE = ['P41.igm']
