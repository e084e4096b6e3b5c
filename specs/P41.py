"""Sequences of calls: the last answer is the one a new object in the same state gives."""
import numpy as np
from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffImage
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.geotiff_point_calc import GeotiffPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.opencv_point_calc import OpenCVPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc import RPCPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.igm_point_calc import IGMPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc import IdealPinholeFpaLocalUtmPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pinhole_camera import PinholeCamera
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.fixtured_camera import FixturedCamera
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model import EarthOverheadSensorModel
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_image import PhysicalCameraImage
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata import PhysicalCameraMetadata
from resippy.photogrammetry.dem.geotiff_dem import GeotiffDem
from resippy.photogrammetry.dem.constant_elevation_dem import ConstantElevationDem
from resippy.spectral.spectrum import Spectrum
from resippy.spectral import spectral_image_processing_1d as sip
from resippy.utils import photogrammetry_utils
from resippy.photogrammetry.nav.applanix_sbet_nav import ApplanixSBETNav
from resippy.photogrammetry.nav.applanix_eo_nav import ApplanixEONav
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
from specs.P02 import _rpc

OPTS = {
    'terrain': {'effects': None},
}


def geot__code(g: Vec(6), h: Vec(6), xs: Arr(1), ys: Arr(1), us: Arr(1), vs: Arr(1), nx: Scalar, ny: Scalar, mx: Scalar, my: Scalar):
    c = GeotiffPointCalc()
    c.set_geot(g)
    c.set_npix_x(mx)
    c.set_npix_y(my)
    c._pixel_x_y_alt_to_lon_lat_native(us, vs)
    c._lon_lat_alt_to_pixel_x_y_native(us, vs)
    c.get_world_extent_native()
    c.set_geot(h)
    c.set_npix_x(nx)
    c.set_npix_y(ny)
    return c._pixel_x_y_alt_to_lon_lat_native(xs, ys), c._lon_lat_alt_to_pixel_x_y_native(xs, ys), c.get_geot(), c.get_inv_geot(), c.get_world_extent_native()


def geot__spec(g, h, xs, ys, us, vs, nx, ny, mx, my):
    """after a second geotransform and size the answers are those of a calculator that was given only these"""
    c = GeotiffPointCalc()
    c.set_geot(h)
    c.set_npix_x(nx)
    c.set_npix_y(ny)
    return c._pixel_x_y_alt_to_lon_lat_native(xs, ys), c._lon_lat_alt_to_pixel_x_y_native(xs, ys), c.get_geot(), c.get_inv_geot(), c.get_world_extent_native()


def brown__code(a: Vec(10), b: Vec(6), d: Vec(6), e: Vec(10), f: Vec(6), g: Vec(6), x: Arr(1), y: Arr(1), z: Arr(1), u: Arr(1), v: Arr(1), w: Arr(1)):
    c = OpenCVPointCalc()
    c.init_intrinsic(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9])
    c.init_offsets(b[0], b[1], b[2], b[3], b[4], b[5])
    c.init_extrinsic(d[0], d[1], d[2], d[3], d[4], d[5])
    c._lon_lat_alt_to_pixel_x_y_native(u, v, w)
    c.init_extrinsic(g[0], g[1], g[2], g[3], g[4], g[5])
    p = c._lon_lat_alt_to_pixel_x_y_native(x, y, z)
    c.init_offsets(f[0], f[1], f[2], f[3], f[4], f[5])
    q = c._lon_lat_alt_to_pixel_x_y_native(x, y, z)
    c.init_intrinsic(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9])
    return p, q, c._lon_lat_alt_to_pixel_x_y_native(x, y, z)


def _opencv(a, b, d, x, y, z):
    c = OpenCVPointCalc()
    c.init_extrinsic(d[0], d[1], d[2], d[3], d[4], d[5])
    c.init_offsets(b[0], b[1], b[2], b[3], b[4], b[5])
    c.init_intrinsic(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9])
    return c._lon_lat_alt_to_pixel_x_y_native(x, y, z)


def brown__spec(a, b, d, e, f, g, x, y, z, u, v, w):
    """after a new pose, new offsets and new lens parameters, in turn, the pixels are those of a camera given only the present ones, in whatever order"""
    return _opencv(a, b, g, x, y, z), _opencv(a, f, g, x, y, z), _opencv(e, f, g, x, y, z)


def pinhole__code(a: Vec(7), b: Vec(7), x: Arr(1), y: Arr(1), z: Arr(1), u: Arr(1), v: Arr(1), w: Arr(1)):
    c = PinholeCamera()
    c.init_pinhole_from_coeffs(a[0], a[1], a[2], a[3], a[4], a[5], a[6])
    c.world_to_image_plane(u, v, w)
    c.init_pinhole_from_coeffs(b[0], b[1], b[2], b[3], b[4], b[5], b[6])
    return c.world_to_image_plane(x, y, z)


def pinhole__spec(a, b, x, y, z, u, v, w):
    """a camera given a second pose answers as a new camera with that pose"""
    c = PinholeCamera()
    c.init_pinhole_from_coeffs(b[0], b[1], b[2], b[3], b[4], b[5], b[6])
    return c.world_to_image_plane(x, y, z)


def frame__code(a: Vec(11), b: Vec(11), pr: Val, qr: Val, x: Arr(1), y: Arr(1), z: Arr(1), u: Arr(1), v: Arr(1), w: Arr(1)):
    c = IdealPinholeFpaLocalUtmPointCalc.init_from_local_params(a[0], a[1], a[2], pr, a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10])
    d = IdealPinholeFpaLocalUtmPointCalc.init_from_local_params(b[0], b[1], b[2], qr, b[3], b[4], b[5], b[6], b[7], b[8], b[9], b[10], flip_x=True, flip_y=True)
    c._lon_lat_alt_to_pixel_x_y_native(u, v, w)
    d._lon_lat_alt_to_pixel_x_y_native(u, v, w)
    d.compute_ifov_x()
    return (c._lon_lat_alt_to_pixel_x_y_native(x, y, z), c.get_projection(), c.get_approximate_lon_lat_center(), c.compute_ifov_x(),
            d._lon_lat_alt_to_pixel_x_y_native(x, y, z), d.get_projection(), d.get_approximate_lon_lat_center(), d.compute_ifov_y())


def frame__spec(a, b, pr, qr, x, y, z, u, v, w):
    """two cameras do not share anything, and a question asked before does not change an answer"""
    d = IdealPinholeFpaLocalUtmPointCalc.init_from_local_params(b[0], b[1], b[2], qr, b[3], b[4], b[5], b[6], b[7], b[8], b[9], b[10], flip_x=True, flip_y=True)
    q = d._lon_lat_alt_to_pixel_x_y_native(x, y, z), d.get_projection(), d.get_approximate_lon_lat_center(), d.compute_ifov_y()
    c = IdealPinholeFpaLocalUtmPointCalc.init_from_local_params(a[0], a[1], a[2], pr, a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10])
    return (c._lon_lat_alt_to_pixel_x_y_native(x, y, z), c.get_projection(), c.get_approximate_lon_lat_center(), c.compute_ifov_x()) + q


def fixture__code(a: Vec(3), b: Vec(3), c: Vec(3), d: Vec(3), m: Mat(3, 3), n: Mat(3, 3), p: Mat(3, 3), q: Mat(3, 3)):
    f = FixturedCamera()
    f.set_fixture_xyz(a[0], a[1], a[2])
    f.set_relative_camera_xyz(b[0], b[1], b[2])
    f.set_fixture_orientation(m)
    f.set_boresight_matrix(p)
    r = [(f.get_camera_absolute_xyz(), f.get_camera_absolute_M_matrix())]
    f.set_fixture_orientation(n)
    r.append((f.get_camera_absolute_xyz(), f.get_camera_absolute_M_matrix()))
    f.set_boresight_matrix(q)
    r.append((f.get_camera_absolute_xyz(), f.get_camera_absolute_M_matrix()))
    f.set_fixture_xyz(c[0], c[1], c[2])
    r.append((f.get_camera_absolute_xyz(), f.get_camera_absolute_M_matrix(), f.get_fixture_xyz()))
    f.set_relative_camera_xyz(d[0], d[1], d[2])
    r.append((f.get_camera_absolute_xyz(), f.get_camera_absolute_M_matrix()))
    return tuple(r)


def _pose(a, b, m, p):
    f = FixturedCamera()
    f.set_boresight_matrix(p)
    f.set_fixture_orientation(m)
    f.set_relative_camera_xyz(b[0], b[1], b[2])
    f.set_fixture_xyz(a[0], a[1], a[2])
    return f


def fixture__spec(a, b, c, d, m, n, p, q):
    """after each change the pose is that of a new fixture with the present settings"""
    f1, f2, f3, f4, f5 = _pose(a, b, m, p), _pose(a, b, n, p), _pose(a, b, n, q), _pose(c, b, n, q), _pose(c, d, n, q)
    return ((f1.get_camera_absolute_xyz(), f1.get_camera_absolute_M_matrix()), (f2.get_camera_absolute_xyz(), f2.get_camera_absolute_M_matrix()),
            (f3.get_camera_absolute_xyz(), f3.get_camera_absolute_M_matrix()), (f4.get_camera_absolute_xyz(), f4.get_camera_absolute_M_matrix(), (c[0], c[1], c[2])),
            (f5.get_camera_absolute_xyz(), f5.get_camera_absolute_M_matrix()))


def rig__code(p1: Val, p2: Val, p3: Val, g: Vec(6), h: Vec(6), xs: Arr(1), ys: Arr(1), zs: Arr(1)):
    a, b, c = GeotiffPointCalc(), GeotiffPointCalc(), GeotiffPointCalc()
    a.set_geot(g)
    b.set_geot(h)
    c.set_geot(h)
    a.set_projection(p1)
    m = EarthOverheadSensorModel()
    m.add_point_calc(a)
    m.add_point_calc(b)
    m.set_projection(p2)
    m._lon_lat_alt_to_pixel_x_y_native(ys, xs, zs, 0)
    r = a.get_projection(), b.get_projection(), m.get_projection(), m.get_num_point_calcs()
    m.update_point_calc(0, c)
    m.set_projection(p3)
    return (r, m._lon_lat_alt_to_pixel_x_y_native(xs, ys, zs, 0), m._lon_lat_alt_to_pixel_x_y_native(xs, ys, zs, 1), a.get_projection(), b.get_projection(), c.get_projection(),
            m.get_projection(), m.get_num_point_calcs())


def rig__spec(p1, p2, p3, g, h, xs, ys, zs):
    """a projection reaches the bands present at the time, whatever they had before; a replaced band answers with its own geometry and leaves the old one alone"""
    c = GeotiffPointCalc()
    c.set_geot(h)
    w = c._lon_lat_alt_to_pixel_x_y_native(xs, ys, zs, 0)
    return (p2, p2, p2, 2), w, w, p2, p3, p3, p3, 2


def igm__code(lon: Arr(2), lat: Arr(2), lon2: Arr(2), lat2: Arr(2), pr: Val, x: Arr(1), y: Arr(1), u: Arr(1), v: Arr(1)):
    a = IGMPointCalc(lon, lat, 0.0, pr)
    b = IGMPointCalc(lon2, lat2, 1.0, pr)
    a._lon_lat_alt_to_pixel_x_y_native(u, v, None)
    b._lon_lat_alt_to_pixel_x_y_native(u, v, None)
    return a._lon_lat_alt_to_pixel_x_y_native(x, y, None), b._lon_lat_alt_to_pixel_x_y_native(x, y, None), a.get_approximate_lon_lat_center(), b.get_approximate_lon_lat_center()


def igm__spec(lon, lat, lon2, lat2, pr, x, y, u, v):
    """grids share nothing, and a question asked before does not change an answer"""
    a = IGMPointCalc(lon, lat, 0.0, pr)
    p = a._lon_lat_alt_to_pixel_x_y_native(x, y, None)
    b = IGMPointCalc(lon2, lat2, 1.0, pr)
    q = b._lon_lat_alt_to_pixel_x_y_native(x, y, None)
    return p, q, IGMPointCalc(lon, lat, 0.0, pr).get_approximate_lon_lat_center(), IGMPointCalc(lon2, lat2, 1.0, pr).get_approximate_lon_lat_center()


def terrain__code(f1: Str, f2: Str, x: Arr(1), y: Arr(1), u: Arr(1), v: Arr(1)):
    a, b = GeotiffImage.init_from_file(f1), GeotiffImage.init_from_file(f2)
    d = GeotiffDem()
    d.set_geotiff_image(a)
    d.set_interpolation_to_nearest()
    d.get_elevations(u, v)
    d.get_highest_alt()
    d.get_lowest_alt()
    d.get_mean_alt()
    d.set_geotiff_image(b)
    return d.get_elevations(x, y), d.get_highest_alt(), d.get_lowest_alt(), d.get_mean_alt(), d.get_projection(), d.get_interpolation_method()


def terrain__spec(f1, f2, x, y, u, v):
    """a terrain given a second file answers from that file alone, with the interpolation chosen"""
    b = GeotiffImage.init_from_file(f2)
    d = GeotiffDem()
    d.set_interpolation_to_nearest()
    d.set_geotiff_image(b)
    return d.get_elevations(x, y), d.get_highest_alt(), d.get_lowest_alt(), d.get_mean_alt(), d.get_projection(), 'nearest'


def interpolation__code(f1: Str, x: Arr(1), y: Arr(1), u: Arr(1), v: Arr(1)):
    d = GeotiffDem()
    d.set_geotiff_image(GeotiffImage.init_from_file(f1))
    m = d.get_elevations(u, v)
    d.set_interpolation_to_nearest()
    n = d.get_elevations(x, y)
    d.set_interpolation_to_bilinear()
    return m, n, d.get_elevations(x, y)


def interpolation__spec(f1, x, y, u, v):
    """each question is answered with the interpolation chosen at the time"""
    im = GeotiffImage.init_from_file(f1)
    d, e = GeotiffDem(), GeotiffDem()
    d.set_geotiff_image(im)
    e.set_interpolation_to_nearest()
    e.set_geotiff_image(im)
    return d.get_elevations(u, v), e.get_elevations(x, y), d.get_elevations(x, y)


def reloaded__code(f1: Str, dst: Str, code: Val, x: Arr(1), y: Arr(1)):
    d = GeotiffDem()
    d.set_geotiff_image(GeotiffImage.init_from_file(f1))
    d.get_highest_alt()
    d.convert_reference(dst, code)
    return d.get_elevations(x, y), d.get_highest_alt(), d.get_projection()


def reloaded__spec(f1, dst, code, x, y):
    """after a conversion the elevations are those of the file it wrote"""
    im = GeotiffImage.init_from_file(f1)
    new = GeotiffImage.reproject_vertical_datum(im, dst, code)
    e = GeotiffDem()
    e.set_geotiff_image(new)
    return e.get_elevations(x, y), e.get_highest_alt(), e.get_projection()


def flat__code(a: Scalar, b: Scalar, x: Arr(1), y: Arr(1), u: Arr(2), v: Arr(2)):
    d, e = ConstantElevationDem(a), ConstantElevationDem(b)
    d.get_elevations(x, y)
    e.get_elevations(u, v)
    return d.get_elevations(u, v), e.get_elevations(x, y), d.get_mean_alt(), e.get_highest_alt()


def flat__spec(a, b, x, y, u, v):
    """every flat terrain has its own height, whatever was asked before"""
    return ConstantElevationDem(a).get_elevations(u, v), ConstantElevationDem(b).get_elevations(x, y), a, b


def spectrum__code(w: Arr(1), s: Arr(1), t: Arr(1), n: Scalar, m: Scalar, k: Scalar):
    a = Spectrum()
    a.set_wavelengths(w)
    a.set_spectral_data(s)
    a.set_nodata_val(n)
    p = a.get_spectral_data()
    p[0] = k
    q = a.get_spectral_data(nodata_to_nan=False)
    q[1] = k
    r = a.get_spectral_data(nodata_to_nan=False), a.get_spectral_data()
    a.set_nodata_val(m)
    u = a.get_spectral_data()
    a.set_spectral_data(t)
    return r, u, a.get_spectral_data(), a.get_spectral_data(nodata_to_nan=False), s, t


def spectrum__spec(w, s, t, n, m, k):
    """values read from a spectrum are copies: writing into them changes neither the spectrum nor the array it was given; new values and a new no-data value replace the old ones"""
    def masked(v, x):
        z = v.astype(float) if not np.issubdtype(v.dtype, np.inexact) else v.copy()
        z[np.where(z == x)] = np.nan
        return z
    return (s, masked(s, n)), masked(s, m), masked(t, m), t, s, t


def planes__code(a: Arr(3), b: Arr(3), c: Arr(2), i: Scalar):
    im = PhysicalCameraImage()
    jm = PhysicalCameraImage()
    e = jm.get_image_band(0)
    im.set_image_data(a)
    im.get_image_band(i)
    im.set_image_data(b)
    p = im.get_image_band(i)
    jm.set_image_data(a)
    m, n = PhysicalCameraMetadata(), PhysicalCameraMetadata()
    m.set_npix_x(1)
    n.set_npix_x(2)
    m.metadata_dict['k'] = 1
    im.set_metadata(m)
    jm.set_metadata(m)
    jm.set_metadata(n)
    return e, p, jm.get_image_band(i), im.get_metadata().get_npix_x(), jm.get_metadata().get_npix_x(), n.metadata_dict.get('k'), jm.get_image_data(), im.get_image_data()


def planes__spec(a, b, c, i):
    """an image shows the planes and the metadata set last, and nothing of another image"""
    return None, b[:, :, i], a[:, :, i], 1, 2, None, a, b


def asked__code(pc: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'),
                x: Arr(1), y: Arr(1), z: Arr(1), u: Arr(1), v: Arr(1), w: Arr(1), p: Opt, q: Opt):
    a = pc.lon_lat_alt_to_pixel_x_y(u, v, w, world_proj=q, band=1)
    b = pc.lon_lat_alt_to_pixel_x_y(x, y, z, world_proj=p, band=0)
    c = pc.lon_lat_alt_to_pixel_x_y(x, y, z, world_proj=p, band=2)
    d = pc.lon_lat_alt_to_pixel_x_y(x, y, w, world_proj=p, band=2)
    return a, b, c, d, pc.get_projection()


def asked__spec(pc, x, y, z, u, v, w, p, q):
    """places asked about before, for another band, another altitude or in another projection, do not change an answer"""
    pr = pc.get_projection()
    d = pc.lon_lat_alt_to_pixel_x_y(x, y, w, world_proj=p, band=2)
    c = pc.lon_lat_alt_to_pixel_x_y(x, y, z, world_proj=p, band=2)
    b = pc.lon_lat_alt_to_pixel_x_y(x, y, z, world_proj=p, band=0)
    return pc.lon_lat_alt_to_pixel_x_y(u, v, w, world_proj=q, band=1), b, c, d, pr


def moved__code(pc: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'),
                p: Val, q: Val, a: Scalar, b: Scalar, c: Scalar, d: Scalar):
    pc.set_projection(p)
    pc.set_approximate_lon_lat_center(a, b)
    r = pc.get_projection(), pc.get_approximate_lon_lat_center()
    pc.set_projection(q)
    pc.set_approximate_lon_lat_center(c, d)
    return r, pc.get_projection(), pc.get_approximate_lon_lat_center()


def moved__spec(pc, p, q, a, b, c, d):
    """the projection and the centre set last are the ones returned"""
    pc.set_approximate_lon_lat_center(c, d)
    pc.set_projection(q)
    return (p, (a, b)), q, (c, d)


def rpc__code(a: Vec(20), b: Vec(20), c: Vec(20), d: Vec(20), e: Vec(20), f: Vec(20), g: Vec(20), h: Vec(20), s: Vec(10), t: Vec(10), x: Arr(1), y: Arr(1), z: Arr(1)):
    m = RPCPointCalc.init_from_coeffs(a, b, s[0], s[1], c, d, s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9])
    m._lon_lat_alt_to_pixel_x_y_native(y, x, z)
    n = RPCPointCalc.init_from_coeffs(e, f, t[0], t[1], g, h, t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9])
    return m.get_approximate_lon_lat_center(), n.get_approximate_lon_lat_center(), n._lon_lat_alt_to_pixel_x_y_native(x, y, z), m._lon_lat_alt_to_pixel_x_y_native(x, y, z)


def rpc__spec(a, b, c, d, e, f, g, h, s, t, x, y, z):
    """two models do not share coefficients"""
    return ((s[7], s[5]), (t[7], t[5]), _rpc(e, f, t[0], t[1], g, h, t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], x, y, z),
            _rpc(a, b, s[0], s[1], c, d, s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], x, y, z))


def _exposure(nx, ny, r, e, k):
    return {'camera_rotation_r': r, 'external_params': [e[0], e[1], e[2], e[3], e[4], e[5]], 'n_x_pixels': nx, 'n_y_pixels': ny,
            'internal_params': {'F': k[0], 'Px': k[1], 'Py': k[2], 'fpa_width_mm': k[3], 'fpa_height_mm': 0.0},
            'tangential_distortion': [k[4], k[5]], 'radial_distortion': [k[6], k[7], k[8]]}


def exposures__code(nx: Scalar, ny: Scalar, r: Mat(3, 3), e: Vec(6), k: Vec(9), mx: Scalar, my: Scalar, q: Mat(3, 3), f: Vec(6), l: Vec(9), pr: Val, x: Arr(1), y: Arr(1), z: Arr(1)):
    params = {'a.tif': _exposure(nx, ny, r, e, k), 'b.tif': _exposure(mx, my, q, f, l), 'projection': pr}
    c = Pix4dPointCalc.init_from_params('a.tif', params)
    c._lon_lat_alt_to_pixel_x_y_native(y, x, z)
    d = Pix4dPointCalc.init_from_params('b.tif', params)
    d._lon_lat_alt_to_pixel_x_y_native(y, x, z)
    return c._lon_lat_alt_to_pixel_x_y_native(x, y, z), c.get_approximate_lon_lat_center(), d._lon_lat_alt_to_pixel_x_y_native(x, y, z), d.get_approximate_lon_lat_center()


def exposures__spec(nx, ny, r, e, k, mx, my, q, f, l, pr, x, y, z):
    """two exposures of one project share nothing but the parameter file"""
    d = Pix4dPointCalc.init_from_params('b.tif', {'b.tif': _exposure(mx, my, q, f, l), 'projection': pr})
    b = d._lon_lat_alt_to_pixel_x_y_native(x, y, z)
    c = Pix4dPointCalc.init_from_params('a.tif', {'a.tif': _exposure(nx, ny, r, e, k), 'projection': pr})
    return c._lon_lat_alt_to_pixel_x_y_native(x, y, z), (e[0], e[1]), b, (f[0], f[1])


def flights__code(t: Arr(1), s: Arr(1), time: Arr(1), x: Arr(1), time2: Arr(1), x2: Arr(1)):
    n, m = ApplanixSBETNav(), ApplanixSBETNav()
    n._nav_data = {'gps_time': time, 'x': x, 'y': x, 'z': x, 'roll': x, 'pitch': x, 'azimuth': x}
    m._nav_data = {'gps_time': time2, 'x': x2, 'y': x2, 'z': x2, 'roll': x2, 'pitch': x2, 'azimuth': x2}
    n.get_world_xs(s)
    n.get_headings(s)
    m.get_world_xs(s)
    a = m.get_world_xs(t), n.get_world_xs(t), n.get_alts(t)
    n._nav_data = {'gps_time': time2, 'x': x2, 'y': x2, 'z': x2, 'roll': x2, 'pitch': x2, 'azimuth': x2}
    return a, n.get_world_xs(t), n.get_headings(t)


def _between(t, time, c):
    if not ((time[0] <= t).all() and (time[-1] >= t).all()):
        return None
    r = np.searchsorted(time, t)
    l = r - 1
    return (c[l] * (time[r] - t) + c[r] * (t - time[l])) / (time[r] - time[l])


def flights__spec(t, s, time, x, time2, x2):
    """records of another flight, or of the one loaded before, do not enter an answer"""
    a, b = _between(t, time, x), _between(t, time2, x2)
    return (b, a, a), b, b


def exported__code(x: Arr(3), y: Arr(3), geot: Any, geot2: Any, proj: Val):
    im = GeotiffImageFactory.from_numpy_array(x, geot, proj, None)
    im.get_gdal_mem_datset()
    im.set_image_data(y)
    im.get_point_calculator().set_geot(geot2)
    return im.get_gdal_mem_datset()


def exported__spec(x, y, geot, geot2, proj):
    """the in-memory dataset shows the pixels and the geotransform of the moment"""
    im = GeotiffImageFactory.from_numpy_array(x, geot2, proj, None)
    im.set_image_data(y)
    return im.get_gdal_mem_datset()


def scores__code(x: Arr(2), y: Arr(2), t: Arr(1), u: Arr(1), m: Arr(1)):
    a = sip.rx_anomaly_detector(x), sip.ace(x, t), sip.sam(x, t), sip.compute_image_cube_spectral_covariance(x)
    b = sip.rx_anomaly_detector(y), sip.ace(y, u), sip.sam(y, u), sip.compute_image_cube_spectral_covariance(y), sip.compute_image_cube_spectral_mean(y, m)
    c = sip.ace(x, u), sip.ace(y, t), sip.sam(x, u)
    return a, b, c


def scores__spec(x, y, t, u, m):
    """images and signatures scored before do not enter a score"""
    c = sip.sam(x, u), sip.ace(y, t), sip.ace(x, u)
    b = sip.compute_image_cube_spectral_mean(y, m), sip.compute_image_cube_spectral_covariance(y), sip.sam(y, u), sip.ace(y, u), sip.rx_anomaly_detector(y)
    a = sip.compute_image_cube_spectral_covariance(x), sip.sam(x, t), sip.ace(x, t), sip.rx_anomaly_detector(x)
    return (a[3], a[2], a[1], a[0]), (b[4], b[3], b[2], b[1], b[0]), (c[2], c[1], c[0])


def rotations__code(a: Vec(3), b: Vec(3)):
    return (photogrammetry_utils.create_M_matrix(a[0], a[1], a[2]), photogrammetry_utils.create_M_matrix(a[0], a[1], a[2], order='ypr'),
            photogrammetry_utils.create_M_matrix(b[0], b[1], b[2]), photogrammetry_utils.create_M_matrix(a[0], a[1], b[2]))


def rotations__spec(a, b):
    """every rotation is that of its own angles and order"""
    d = photogrammetry_utils.create_M_matrix(a[0], a[1], b[2])
    c = photogrammetry_utils.create_M_matrix(b[0], b[1], b[2])
    r = photogrammetry_utils.create_M_matrix(a[0], a[1], a[2], order='ypr')
    return photogrammetry_utils.create_M_matrix(a[0], a[1], a[2]), r, c, d


def two_lenses__code(a: Vec(10), b: Vec(6), d: Vec(6), e: Vec(10), f: Vec(6), g: Vec(6), p: Val, q: Val, x: Arr(1), y: Arr(1), z: Arr(1)):
    c, k = OpenCVPointCalc(), OpenCVPointCalc()
    c.set_projection(p)
    c.set_approximate_lon_lat_center(a[0], a[1])
    c.init_intrinsic(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9])
    c.init_offsets(b[0], b[1], b[2], b[3], b[4], b[5])
    c.init_extrinsic(d[0], d[1], d[2], d[3], d[4], d[5])
    k.set_projection(q)
    k.set_approximate_lon_lat_center(e[0], e[1])
    k.init_intrinsic(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9])
    k.init_offsets(f[0], f[1], f[2], f[3], f[4], f[5])
    k.init_extrinsic(g[0], g[1], g[2], g[3], g[4], g[5])
    return (c._lon_lat_alt_to_pixel_x_y_native(x, y, z), k._lon_lat_alt_to_pixel_x_y_native(x, y, z), c.get_projection(), k.get_projection(),
            c.get_approximate_lon_lat_center(), k.get_approximate_lon_lat_center())


def two_lenses__spec(a, b, d, e, f, g, p, q, x, y, z):
    """a second camera set up afterwards changes nothing about the first"""
    return _opencv(a, b, d, x, y, z), _opencv(e, f, g, x, y, z), p, q, (a[0], a[1]), (e[0], e[1])


def two_poses__code(a: Vec(3), b: Vec(3), c: Vec(3), d: Vec(3), m: Mat(3, 3), n: Mat(3, 3), p: Mat(3, 3), q: Mat(3, 3), u: Vec(7), v: Vec(7), x: Arr(1), y: Arr(1), z: Arr(1)):
    f, g = FixturedCamera(), FixturedCamera()
    h, k = PinholeCamera(), PinholeCamera()
    for o, xyz, rel, mat, bore in ((f, a, b, m, p), (g, c, d, n, q)):
        o.set_fixture_xyz(xyz[0], xyz[1], xyz[2])
        o.set_relative_camera_xyz(rel[0], rel[1], rel[2])
        o.set_fixture_orientation(mat)
        o.set_boresight_matrix(bore)
    h.init_pinhole_from_coeffs(u[0], u[1], u[2], u[3], u[4], u[5], u[6])
    k.init_pinhole_from_coeffs(v[0], v[1], v[2], v[3], v[4], v[5], v[6])
    return (f.get_camera_absolute_xyz(), f.get_camera_absolute_M_matrix(), f.get_fixture_xyz(), g.get_camera_absolute_xyz(), g.get_camera_absolute_M_matrix(), g.get_fixture_xyz(),
            h.world_to_image_plane(x, y, z), k.world_to_image_plane(x, y, z))


def two_poses__spec(a, b, c, d, m, n, p, q, u, v, x, y, z):
    """two fixtures and two pinhole cameras share nothing"""
    g = _pose(c, d, n, q)
    r = g.get_camera_absolute_xyz(), g.get_camera_absolute_M_matrix(), (c[0], c[1], c[2])
    f = _pose(a, b, m, p)
    k = PinholeCamera()
    k.init_pinhole_from_coeffs(v[0], v[1], v[2], v[3], v[4], v[5], v[6])
    t = k.world_to_image_plane(x, y, z)
    h = PinholeCamera()
    h.init_pinhole_from_coeffs(u[0], u[1], u[2], u[3], u[4], u[5], u[6])
    return (f.get_camera_absolute_xyz(), f.get_camera_absolute_M_matrix(), (a[0], a[1], a[2])) + r + (h.world_to_image_plane(x, y, z), t)


def two_rigs__code(p1: Val, p2: Val, g: Vec(6), h: Vec(6), nx: Scalar, mx: Scalar, xs: Arr(1), ys: Arr(1), zs: Arr(1)):
    a, b = GeotiffPointCalc(), GeotiffPointCalc()
    m, n = EarthOverheadSensorModel(), EarthOverheadSensorModel()
    a.set_geot(g)
    a.set_npix_x(nx)
    m.add_point_calc(a)
    m.set_projection(p1)
    b.set_geot(h)
    b.set_npix_x(mx)
    n.add_point_calc(b)
    n.set_projection(p2)
    return (m._lon_lat_alt_to_pixel_x_y_native(xs, ys, zs, 0), n._lon_lat_alt_to_pixel_x_y_native(xs, ys, zs, 0), m.get_projection(), n.get_projection(), m.get_num_point_calcs(),
            n.get_num_point_calcs(), a._pixel_x_y_alt_to_lon_lat_native(xs, ys), b._pixel_x_y_alt_to_lon_lat_native(xs, ys), a.get_geot(), a.get_inv_geot())


def two_rigs__spec(p1, p2, g, h, nx, mx, xs, ys, zs):
    """two multi-band models, and two geotransforms, share nothing"""
    b = GeotiffPointCalc()
    b.set_geot(h)
    q, t = b._lon_lat_alt_to_pixel_x_y_native(xs, ys, zs, 0), b._pixel_x_y_alt_to_lon_lat_native(xs, ys)
    a = GeotiffPointCalc()
    a.set_geot(g)
    return (a._lon_lat_alt_to_pixel_x_y_native(xs, ys, zs, 0), q, p1, p2, 1, 1, a._pixel_x_y_alt_to_lon_lat_native(xs, ys), t, g, a.get_inv_geot())


def two_spectra__code(w: Arr(1), s: Arr(1), v: Arr(1), t: Arr(1), n: Scalar, m: Scalar):
    a, b = Spectrum(), Spectrum()
    a.set_wavelengths(w)
    a.set_spectral_data(s)
    a.set_nodata_val(n)
    b.set_wavelengths(v)
    b.set_spectral_data(t)
    b.set_nodata_val(m)
    return (a.get_wavelengths(), a.get_spectral_data(nodata_to_nan=False), a.get_nodata_val(), b.get_wavelengths(), b.get_spectral_data(nodata_to_nan=False), b.get_nodata_val(),
            Spectrum().get_nodata_val())


def two_spectra__spec(w, s, v, t, n, m):
    """two spectra share nothing, and a new one has no no-data value"""
    return w, s, n, v, t, m, None


def two_headers__code(a: Scalar, b: Scalar, c: Scalar, d: Scalar, p: Str, q: Str, r: Val, u: Val, w: Val):
    m, n = PhysicalCameraMetadata(), PhysicalCameraMetadata()
    m.set_npix_x(a)
    m.set_npix_y(b)
    m.set_n_bands(c)
    m.set_image_name(p)
    m.set_nodata_val(d)
    m.metadata_dict['z'] = r
    n.set_npix_x(b)
    n.set_npix_y(a)
    n.set_n_bands(d)
    n.set_image_name(q)
    n.set_nodata_val(c)
    n.metadata_dict['z'] = u
    k = PhysicalCameraMetadata()
    return (m.get_npix_x(), m.get_npix_y(), m.get_n_bands(), m.get_image_name(), m.get_nodata_val(), m.metadata_dict.get('z'), n.get_npix_x(), n.get_npix_y(), n.get_n_bands(),
            n.get_image_name(), n.get_nodata_val(), n.metadata_dict.get('z'), k.metadata_dict.get('z'), k.get_nodata_val())


def two_headers__spec(a, b, c, d, p, q, r, u, w):
    """two metadata objects share nothing"""
    return a, b, c, p, d, r, b, a, d, q, c, u, None, None
