"""Sensor models made of one point calculator per band."""
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.earth_overhead_sensor_model import EarthOverheadSensorModel

OPTS = {'projection': {'args': False}, 'distortion': {'args': False}}


def _model(p, q, r):
    m = EarthOverheadSensorModel()
    m.add_point_calc(p)
    m.add_point_calc(q)
    m.add_point_calc(r)
    return m


def forward__code(p: Sym, q: Sym, r: Sym, lon: Arr(1), lat: Arr(1), alt: Arr(1)):
    m = _model(p, q, r)
    f = m._lon_lat_alt_to_pixel_x_y_native
    return f(lon, lat, alt, 0), f(lon, lat, alt, 1), f(lon, lat, alt, 2)


def forward__spec(p, q, r, lon, lat, alt):
    """each band's pixels come from that band's own point calculator, asked for that band"""
    return (p._lon_lat_alt_to_pixel_x_y_native(lon, lat, alt, 0), q._lon_lat_alt_to_pixel_x_y_native(lon, lat, alt, 1),
            r._lon_lat_alt_to_pixel_x_y_native(lon, lat, alt, 2))


def inverse__code(p: Sym, q: Sym, r: Sym, x: Arr(1), y: Arr(1), alt: Arr(1)):
    m = _model(p, q, r)
    f = m._pixel_x_y_alt_to_lon_lat_native
    return f(x, y, alt, 0), f(x, y, alt, 1), f(x, y, alt, 2)


def inverse__spec(p, q, r, x, y, alt):
    """each band's ground points come from that band's own point calculator, asked for that band"""
    return (p._pixel_x_y_alt_to_lon_lat_native(x, y, alt, 0), q._pixel_x_y_alt_to_lon_lat_native(x, y, alt, 1),
            r._pixel_x_y_alt_to_lon_lat_native(x, y, alt, 2))


def missing__code(p: Sym, q: Sym, r: Sym, x: Arr(1), y: Arr(1), alt: Arr(1)):
    return _model(p, q, r)._lon_lat_alt_to_pixel_x_y_native(x, y, alt, 3)


def missing__spec(p, q, r, x, y, alt):
    """a band the model does not have is an error"""
    raise ValueError('band out of range: 3')


def missing_inverse__code(p: Sym, q: Sym, r: Sym, x: Arr(1), y: Arr(1), alt: Arr(1)):
    return _model(p, q, r)._pixel_x_y_alt_to_lon_lat_native(x, y, alt, 3)


def missing_inverse__spec(p, q, r, x, y, alt):
    """a band the model does not have is an error"""
    raise ValueError('band out of range: 3')


def projection__code(p: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.igm_point_calc.IGMPointCalc'),
                     q: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.igm_point_calc.IGMPointCalc'), j: Sym):
    m = EarthOverheadSensorModel()
    m.set_point_calcs([p, q])
    m.set_projection(j)
    return m.get_projection(), p.get_projection(), q.get_projection()


def projection__spec(p, q, j):
    """the model's projection is every band's projection"""
    return j, j, j


def distortion__code(p: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc.Pix4dPointCalc'),
                     q: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc.Pix4dPointCalc'), d: Str):
    m = EarthOverheadSensorModel()
    m.set_point_calcs([p, q])
    m.set_distortion_model(d)
    return p.distortion_model, q.distortion_model


def distortion__spec(p, q, d):
    """the distortion model is set on every band"""
    return d, d


def bands__code(p: Sym, q: Sym, r: Sym, s: Sym):
    m = _model(p, q, r)
    m.update_point_calc(1, s)
    return m.get_num_point_calcs(), m.get_point_calc(0), m.get_point_calc(1), m.get_point_calc(2), m.get_point_calcs()


def bands__spec(p, q, r, s):
    """bands keep the order they were added in, and replacing one leaves the others alone"""
    return 3, p, s, r, [p, s, r]


def fresh__code(p: Sym, q: Sym):
    m = EarthOverheadSensorModel()
    n = EarthOverheadSensorModel()
    m.add_point_calc(p)
    n.add_point_calc(q)
    return m.get_point_calcs(), n.get_point_calcs()


def fresh__spec(p, q):
    """two models never share their bands"""
    return [p], [q]


def replaced__code(p: Sym, q: Sym, r: Sym, s: Sym, lon: Arr(1), lat: Arr(1), alt: Arr(1)):
    m = _model(p, q, r)
    m.set_point_calcs([s, p])
    return m.get_num_point_calcs(), m.get_point_calcs(), m._lon_lat_alt_to_pixel_x_y_native(lon, lat, alt, 0), m._lon_lat_alt_to_pixel_x_y_native(lon, lat, alt, 1)


def replaced__spec(p, q, r, s, lon, lat, alt):
    """setting the bands replaces the ones the model had"""
    return 2, [s, p], s._lon_lat_alt_to_pixel_x_y_native(lon, lat, alt, 0), p._lon_lat_alt_to_pixel_x_y_native(lon, lat, alt, 1)


INCLUDE = ['P41.rig', 'P30.sensor_band', 'P30.sensor_band_back']
