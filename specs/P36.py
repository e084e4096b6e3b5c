"""the physical camera simulator."""
import numpy as np
from scipy.ndimage import map_coordinates
from resippy.utils import photogrammetry_utils
from resippy.utils.units import ureg
from resippy.utils.physical_camera_simulator import PhysicalCameraSimulator
from resippy.image_objects.image_factory import GeotiffImageFactory
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.ideal_pinhole_fpa_local_utm_point_calc import IdealPinholeFpaLocalUtmPointCalc

OPTS = {
    'pose': {'opaque': ['resippy.utils.photogrammetry_utils.solve_for_omega_phi_kappa',
                        'resippy.image_objects.image_factory.GeotiffImageFactory.from_file']},
    'defaults': {'opaque': ['resippy.utils.photogrammetry_utils.create_M_matrix', 'resippy.utils.photogrammetry_utils.solve_for_omega_phi_kappa',
                            'resippy.image_objects.image_factory.GeotiffImageFactory.from_file']},
    'sampling': {'args': False, 'opaque': ['resippy.image_objects.image_factory.GeotiffImageFactory.from_file',
                            'resippy.utils.physical_camera_simulator.PhysicalCameraSimulator._generate_camera_point_calc'],
                 'fields': {'resippy.utils.physical_camera_simulator.PhysicalCameraSimulator#_gtiff_image_object': 'resippy.image_objects.earth_overhead.geotiff.geotiff_image.GeotiffImage'}},
}


def _rad(v, u):
    return (v * ureg.parse_expression(u)).to(ureg['radians']).magnitude


def _nz(v):
    if np.isclose(v, 0):
        return v + 1e-8
    return v


def _cam(p):
    return (p._pinhole_camera.X, p._pinhole_camera.Y, p._pinhole_camera.Z, p._pinhole_camera.omega, p._pinhole_camera.phi, p._pinhole_camera.kappa,
            p._pinhole_camera.f, p._pixel_pitch_x_meters, p._pixel_pitch_y_meters, p._npix_x, p._npix_y, p._flip_x, p._flip_y, p.get_projection())


def pose__code(fname: Str, f: Scalar, nx: Scalar, ny: Scalar, br: Scalar, bp: Scalar, by: Scalar, px: Scalar, py: Scalar, pu: Str, fu: Str, bu: Str, bo: Str,
               su: Str, eu: Str, proj: Val, lon: Scalar, lat: Scalar, alt: Scalar, r: Scalar, p: Scalar, y: Scalar):
    s = PhysicalCameraSimulator(fname, f, nx, ny, boresight_roll=br, boresight_pitch=bp, boresight_yaw=by, pixel_pitch_x=px, pixel_pitch_y=py,
                                pixel_pitch_units=pu, focal_length_units=fu, boresight_units=bu, boresight_rpy_order=bo, external_orientation_spatial_units=su,
                                external_orientation_rpy_units=eu, world_projection=proj)
    return _cam(s._generate_camera_point_calc(lon, lat, alt, r, p, y))


def pose__spec(fname, f, nx, ny, br, bp, by, px, py, pu, fu, bu, bo, su, eu, proj, lon, lat, alt, r, p, y):
    """boresight after platform attitude, each in its own unit; the sensor is the requested one, rows downwards"""
    GeotiffImageFactory.from_file(fname)
    b = photogrammetry_utils.create_M_matrix(_rad(_nz(br), bu), _rad(_nz(bp), bu), _rad(_nz(by), bu), order=bo)
    m = photogrammetry_utils.create_M_matrix(_rad(r, eu), _rad(p, eu), _rad(y, eu), order='rpy')
    o, ph, k = photogrammetry_utils.solve_for_omega_phi_kappa(b @ m)
    c = IdealPinholeFpaLocalUtmPointCalc.init_from_local_params(lon, lat, alt, proj, o, ph, k, nx, ny, px, py, f, alt_units=su, pixel_pitch_x_units=pu,
                                                                pixel_pitch_y_units=pu, focal_length_units=fu, flip_x=False, flip_y=True)
    return _cam(c)


def defaults__code(fname: Str, f: Scalar, nx: Scalar, ny: Scalar, lon: Scalar, lat: Scalar, alt: Scalar, r: Scalar, p: Scalar, y: Scalar):
    return _cam(PhysicalCameraSimulator(fname, f, nx, ny)._generate_camera_point_calc(lon, lat, alt, r, p, y))


def defaults__spec(fname, f, nx, ny, lon, lat, alt, r, p, y):
    """5 micrometre pixels, millimetre focal length, degrees, metres, no boresight, the projection of the scene"""
    proj = GeotiffImageFactory.from_file(fname).pointcalc.get_projection()
    s = PhysicalCameraSimulator(fname, f, nx, ny, 0, 0, 0, 5, 5, 'micrometer', 'mm', 'degrees', 'rpy', 'meters', 'degrees', proj)
    return _cam(s._generate_camera_point_calc(lon, lat, alt, r, p, y))


def sampling__code(s: Obj('resippy.utils.physical_camera_simulator.PhysicalCameraSimulator'), lon: Scalar, lat: Scalar, alt: Scalar,
                   r: Scalar, p: Scalar, y: Scalar):
    im = s.create_overhead_image_object(lon, lat, alt, r, p, y)
    md = im.get_metadata()
    return im.get_image_data(), md.get_npix_x(), md.get_npix_y(), md.get_n_bands(), im.get_point_calculator()


def sampling__spec(s, lon, lat, alt, r, p, y):
    """every simulated pixel shows the scene at the ground position (altitude 0) it looks at, found through the scene's own calculator"""
    pc = s._generate_camera_point_calc(lon, lat, alt, r, p, y)
    xs, ys = np.meshgrid(np.arange(s._npix_x), np.arange(s._npix_y))
    gx, gy = pc.pixel_x_y_alt_to_lon_lat(xs, ys, xs * 0)
    u, v = s._gtiff_image_object.get_point_calculator().lon_lat_alt_to_pixel_x_y(gx, gy, np.zeros_like(gx), world_proj=pc.get_projection())
    data = s._gtiff_image_data
    if data is None:
        data = s._gtiff_image_object.read_band_from_disk(0)
    band = map_coordinates(data, [np.ravel(v), np.ravel(u)])
    return band.reshape(s._npix_y, s._npix_x, 1), s._npix_x, s._npix_y, 1, pc


INCLUDE = ['P03.collinearity', 'P04.default_order', 'P05.angles', 'P06.position', 'P06.orientation', 'P07.local', 'P07.wgs84']
