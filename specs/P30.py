"""options outside the supported set are refused."""
import numpy as np
from resippy.utils import envi_utils, photogrammetry_utils, file_utils, pix4d_utils
from resippy.utils.image_utils import image_utils
from resippy.photogrammetry.dem.dem_factory import DemFactory
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.fixtured_camera import FixturedCamera
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc
from specs.decl import ANY
from specs.P09 import _entry

OPTS = {
    'warp': {'args': False},
    'dem_file': {'args': False},
    'dem_query': {'args': False},
    'sensor_band': {'args': False, 'opaque': []},
    'sensor_band_back': {'args': False},
}


def warp__code(im: Arr(2), xs: Arr(2), ys: Arr(2), nd: Scalar, m: Str):
    return image_utils.grid_warp_image_band(im, xs, ys, nd, m)


def warp__spec(im, xs, ys, nd, m):
    """an interpolation outside the six supported orders is refused"""
    if m == 'nearest' or m == 'bilinear' or m == 'biquadratic' or m == 'bicubic' or m == 'biquartic' or m == 'biquintic':
        return ANY
    raise ValueError


def dem_file__code(fname: Str, nd: Opt, m: Str):
    return DemFactory.from_gtiff_file(fname, nd, m)


def dem_file__spec(fname, nd, m):
    """a DEM interpolates 'nearest' or 'bilinear', nothing else"""
    if m == 'nearest' or m == 'bilinear':
        return ANY
    raise TypeError


def dem_query__code(d: Obj('resippy.photogrammetry.dem.geotiff_dem.GeotiffDem'), m: Str, x: Arr(1), y: Arr(1)):
    d.interpolation_method = m
    return d.get_elevations(x, y)


def dem_query__spec(d, m, x, y):
    """a DEM set to an unknown interpolation refuses to answer"""
    if m == 'nearest' or m == 'bilinear':
        return ANY
    raise TypeError


def order__code(o: Scalar, p: Scalar, k: Scalar, m: Str):
    return photogrammetry_utils.create_M_matrix(o, p, k, order=m)


def order__spec(o, p, k, m):
    """a rotation order that is not a permutation of roll, pitch and yaw is refused"""
    if m == 'rpy' or m == 'ryp' or m == 'pry' or m == 'pyr' or m == 'yrp' or m == 'ypr':
        return ANY
    raise ValueError


def boresight_order__code(o: Scalar, p: Scalar, k: Scalar, m: Str):
    c = FixturedCamera()
    c.set_boresight_matrix_from_camera_relative_rpy_params(o, p, k, order=m)
    return c.boresight_matrix


def boresight_order__spec(o, p, k, m):
    """a rotation order that is not a permutation of roll, pitch and yaw is refused"""
    if m == 'rpy' or m == 'ryp' or m == 'pry' or m == 'pyr' or m == 'yrp' or m == 'ypr':
        return ANY
    raise ValueError


def fixture_order__code(o: Scalar, p: Scalar, k: Scalar, m: Str):
    c = FixturedCamera()
    c.set_fixture_orientation_by_roll_pitch_yaw(o, p, k, order=m)
    return c.fixture_M


def fixture_order__spec(o, p, k, m):
    """a rotation order that is not a permutation of roll, pitch and yaw is refused"""
    if m == 'rpy' or m == 'ryp' or m == 'pry' or m == 'pyr' or m == 'yrp' or m == 'ypr':
        return ANY
    raise ValueError


def codes__code():
    return [envi_utils.envi_dtype_to_numpy_dtype(k) for k in (1, 2, 3, 4, 5, 6, 9, 12, 13, 14, 15)]


def codes__spec():
    """every code the ENVI format defines is accepted"""
    return [np.uint8, np.int16, np.int32, np.float32, np.float64, np.complex64, np.complex128, np.uint16, np.uint32, np.int64, np.uint64]


def code_0__code():
    return envi_utils.envi_dtype_to_numpy_dtype(0)


def code_0__spec():
    """a data type code ENVI does not define is refused"""
    raise ValueError


def code_7__code():
    return envi_utils.envi_dtype_to_numpy_dtype(7)


def code_7__spec():
    """a data type code ENVI does not define is refused"""
    raise ValueError


def code_8__code():
    return envi_utils.envi_dtype_to_numpy_dtype('8')


def code_8__spec():
    """a data type code ENVI does not define is refused"""
    raise ValueError


def code_10__code():
    return envi_utils.envi_dtype_to_numpy_dtype(10)


def code_10__spec():
    """a data type code ENVI does not define is refused"""
    raise ValueError


def build__code(raw: Arr(1), nx: Scalar, ny: Scalar, nb: Scalar, il: Str):
    return envi_utils.construct_image_cube_from_raw_data(raw, nx, ny, nb, il)


def build__spec(raw, nx, ny, nb, il):
    """an interleave other than bil, bip and bsq is refused on reading"""
    if il == 'bil' or il == 'bip' or il == 'bsq':
        return ANY
    raise ValueError


def write__code(cube: Arr(3), out: Str, hdr: Str, il: Str):
    return envi_utils.write_envi_image(cube, out, hdr, il)


def write__spec(cube, out, hdr, il):
    """an interleave other than bil, bip and bsq is refused on writing"""
    if il == 'bil' or il == 'bip' or il == 'bsq':
        return ANY
    raise ValueError


def distortion__code(nx: Scalar, ny: Scalar, f: Scalar, px: Scalar, py: Scalar, w: Scalar, r: Mat(3, 3), ext: Vec(6), lons: Arr(1), lats: Arr(1), alts: Arr(1),
                     proj: Val, m: Str):
    c = Pix4dPointCalc.init_from_params('img.tif', {'img.tif': _entry(nx, ny, f, px, py, w, r, ext, 1, 2, 3, 4, 5), 'projection': proj}, distortion_model=m)
    return c.lon_lat_alt_to_pixel_x_y(lons, lats, alts)


def distortion__spec(nx, ny, f, px, py, w, r, ext, lons, lats, alts, proj, m):
    """a distortion model other than 'regular' (or none) is refused"""
    if m == 'regular':
        return ANY
    raise ValueError


def sensor_band__code(c: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model.EarthOverheadSensorModel'),
                      lons: Arr(1), lats: Arr(1), alts: Arr(1), band: Scalar):
    return c._lon_lat_alt_to_pixel_x_y_native(lons, lats, alts, band)


def sensor_band__spec(c, lons, lats, alts, band):
    """a band the sensor model does not have is refused"""
    if band >= len(c._point_calcs):
        raise ValueError
    return ANY


def sensor_band_back__code(c: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model.EarthOverheadSensorModel'),
                           xs: Arr(1), ys: Arr(1), alts: Arr(1), band: Scalar):
    return c._pixel_x_y_alt_to_lon_lat_native(xs, ys, alts, band)


def sensor_band_back__spec(c, xs, ys, alts, band):
    """a band the sensor model does not have is refused"""
    if band >= len(c._point_calcs):
        raise ValueError
    return ANY


def extensions__code(d: Str):
    return file_utils.get_all_files_in_dir(d, extensions=5)


def extensions__spec(d):
    """extensions are a string or a list of strings, anything else is refused"""
    raise TypeError


INCLUDE = ['P04.orders', 'P15.unsupported', 'P17.dtypes', 'P37.missing', 'P37.missing_inverse']
