"""Pix4D camera."""
import numpy as np
import os
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc


def _camera(r, t, lons, lats, alts):
    dx, dy, dz = lons - t[0], lats - t[1], alts - t[2]
    return (r[0, 0] * dx + r[0, 1] * dy + r[0, 2] * dz, r[1, 0] * dx + r[1, 1] * dy + r[1, 2] * dz, r[2, 0] * dx + r[2, 1] * dy + r[2, 2] * dz)


def _entry(nx, ny, f, px, py, w, r, ext, t0, t1, k1, k2, k3):
    return {'camera_rotation_r': r, 'external_params': [ext[0], ext[1], ext[2], ext[3], ext[4], ext[5]], 'n_x_pixels': nx, 'n_y_pixels': ny,
            'internal_params': {'F': f, 'Px': px, 'Py': py, 'fpa_width_mm': w, 'fpa_height_mm': 0.0},
            'tangential_distortion': [t0, t1], 'radial_distortion': [k1, k2, k3]}


def distorted__code(nx: Scalar, ny: Scalar, f: Scalar, px: Scalar, py: Scalar, w: Scalar, r: Mat(3, 3), ext: Vec(6), t0: Scalar, t1: Scalar,
                    k1: Scalar, k2: Scalar, k3: Scalar, lons: Arr(1), lats: Arr(1), alts: Arr(1), proj: Val):
    c = Pix4dPointCalc.init_from_params('dir/img.tif', {'img.tif': _entry(nx, ny, f, px, py, w, r, ext, t0, t1, k1, k2, k3), 'projection': proj})
    a, b = c.lon_lat_alt_to_pixel_x_y(lons, lats, alts)
    return a, b, c.get_approximate_lon_lat_center(), c.get_projection(), c._pixel_x_y_alt_to_lon_lat_native(lons, lats, alts)


def distorted__spec(nx, ny, f, px, py, w, r, ext, t0, t1, k1, k2, k3, lons, lats, alts, proj):
    """Pix4D camera: mm parameters scaled by n_x_pixels / fpa width, radial then tangential distortion, principal point, both axes flipped"""
    a, b, c = _camera(r, ext, lons, lats, alts)
    x, y = a / c, b / c
    r2 = x ** 2 + y ** 2
    rad = 1 + k1 * r2 + k2 * r2 ** 2 + k3 * r2 ** 3
    s = nx / w
    xd = rad * x + 2 * t0 * x * y + t1 * (r2 + 2 * x ** 2)
    yd = rad * y + 2 * t1 * x * y + t0 * (r2 + 2 * y ** 2)
    return f * s * xd + px * s, f * s * yd + py * s, (ext[0], ext[1]), proj, None


def plain__code(nx: Scalar, ny: Scalar, f: Scalar, px: Scalar, py: Scalar, w: Scalar, r: Mat(3, 3), ext: Vec(6), lons: Arr(1), lats: Arr(1), alts: Arr(1), proj: Val):
    c = Pix4dPointCalc.init_from_params('img.tif', {'img.tif': _entry(nx, ny, f, px, py, w, r, ext, 1, 2, 3, 4, 5), 'projection': proj}, distortion_model=None)
    a, b = c.lon_lat_alt_to_pixel_x_y(lons, lats, alts)
    return a, b


def plain__spec(nx, ny, f, px, py, w, r, ext, lons, lats, alts, proj):
    """without a distortion model the camera ratios are only scaled and shifted"""
    a, b, c = _camera(r, ext, lons, lats, alts)
    s = nx / w
    return f * s * a / c + px * s, f * s * b / c + py * s


def unreversed__code(nx: Scalar, ny: Scalar, f: Scalar, px: Scalar, py: Scalar, w: Scalar, r: Mat(3, 3), ext: Vec(6), lons: Arr(1), lats: Arr(1), alts: Arr(1), proj: Val):
    c = Pix4dPointCalc.init_from_params('img.tif', {'img.tif': _entry(nx, ny, f, px, py, w, r, ext, 1, 2, 3, 4, 5), 'projection': proj}, distortion_model=None)
    c.reverse_x_pixels = False
    c.reverse_y_pixels = False
    a, b = c.lon_lat_alt_to_pixel_x_y(lons, lats, alts)
    return a, b


def unreversed__spec(nx, ny, f, px, py, w, r, ext, lons, lats, alts, proj):
    """with the reversal off, the collinearity sign stays"""
    a, b, c = _camera(r, ext, lons, lats, alts)
    s = nx / w
    return -f * s * a / c + px * s, -f * s * b / c + py * s


def one_way__code(nx: Scalar, ny: Scalar, f: Scalar, px: Scalar, py: Scalar, w: Scalar, r: Mat(3, 3), ext: Vec(6), lons: Arr(1), lats: Arr(1), alts: Arr(1), proj: Val):
    c = Pix4dPointCalc.init_from_params('img.tif', {'img.tif': _entry(nx, ny, f, px, py, w, r, ext, 1, 2, 3, 4, 5), 'projection': proj})
    a = c.world_xyzs_to_pixel_locations(lons, lats, alts)
    b = c.world_xyzs_to_pixel_locations(lons, lats, alts, reverse_x_pixels=False)
    d = c.world_xyzs_to_pixel_locations(lons, lats, alts, reverse_y_pixels=False)
    return a[0], a[1], b[0], b[1], d[0], d[1]


def one_way__spec(nx, ny, f, px, py, w, r, ext, lons, lats, alts, proj):
    """the caller says which axes of the result are turned round, and whether there is a distortion"""
    a, b, c = _camera(r, ext, lons, lats, alts)
    s = nx / w
    x, y = f * s * a / c + px * s, f * s * b / c + py * s
    return x, y, nx - x, y, x, ny - y


def named__code(nx: Scalar, ny: Scalar, f: Scalar, px: Scalar, py: Scalar, w: Scalar, r: Mat(3, 3), ext: Vec(6), r2: Mat(3, 3), ext2: Vec(6), proj: Val):
    d = {'Img 1_2.TIF': _entry(nx, ny, f, px, py, w, r, ext, 1, 2, 3, 4, 5), 'img 1_2.tif': _entry(1, 2, 3, 4, 5, 6, r2, ext2, 6, 7, 8, 9, 10), 'projection': proj}
    c = Pix4dPointCalc.init_from_params('some dir/Img 1_2.TIF', d)
    e = Pix4dPointCalc.init_from_params('img 1_2.tif', d)
    return (c.image_key, c.r_matrix, c.get_approximate_lon_lat_center(), c.npix_x, c.npix_y, e.image_key, e.r_matrix, e.get_approximate_lon_lat_center(), e.npix_x,
            d['Img 1_2.TIF']['external_params'], d['img 1_2.tif']['external_params'], d['Img 1_2.TIF']['n_x_pixels'])


def named__spec(nx, ny, f, px, py, w, r, ext, r2, ext2, proj):
    """an image's parameters are found under its own file name, exactly, and stay as they were"""
    return ('Img 1_2.TIF', r, (ext[0], ext[1]), nx, ny, 'img 1_2.tif', r2, (ext2[0], ext2[1]), 1,
            [ext[0], ext[1], ext[2], ext[3], ext[4], ext[5]], [ext2[0], ext2[1], ext2[2], ext2[3], ext2[4], ext2[5]], nx)


INCLUDE = ['P41.exposures', 'P28.rotation', 'P28.external', 'P28.calibrated', 'P28.internal', 'P28.project', 'P28.found', 'P28.calc_external', 'P28.calc_internal',
           'P30.distortion']
