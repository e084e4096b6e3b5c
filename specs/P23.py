"""navigation records."""
import json
import numpy as np
import pdal
import pyproj
from resippy.photogrammetry.nav.applanix_sbet_nav import ApplanixSBETNav
from resippy.photogrammetry.nav.applanix_eo_nav import ApplanixEONav
from resippy.photogrammetry.nav.abstract_nav import AbstractNav
from resippy.photogrammetry.nav.nav_factory import NavFactory
from resippy.utils.string_utils import convert_to_snake_case


def sbet__code(t: Arr(1), time: Arr(1), x: Arr(1), y: Arr(1), z: Arr(1), roll: Arr(1), pitch: Arr(1), az: Arr(1)):
    n = ApplanixSBETNav()
    n._nav_data = {'gps_time': time, 'x': x, 'y': y, 'z': z, 'roll': roll, 'pitch': pitch, 'azimuth': az}
    return (n.get_world_xs(t), n.get_world_ys(t), n.get_alts(t), n.get_rolls(t), n.get_pitches(t), n.get_headings(t))


def sbet__spec(t, time, x, y, z, roll, pitch, az):
    """each query interpolates its own channel between the records around each time; nothing outside the recorded span"""
    if not ((time[0] <= t).all() and (time[-1] >= t).all()):
        return None, None, None, None, None, None
    r = np.searchsorted(time, t)
    l = r - 1
    out = []
    for c in (x, y, z, roll, pitch, az):
        out.append((c[l] * (time[r] - t) + c[r] * (t - time[l])) / (time[r] - time[l]))
    return out[0], out[1], out[2], out[3], out[4], out[5]


def eo__code(t: Arr(1), time: Arr(1), x: Arr(1), y: Arr(1), z: Arr(1), om: Arr(1), ph: Arr(1), ka: Arr(1)):
    n = ApplanixEONav()
    n._nav_data = {'gps_time': time, 'easting': x, 'northing': y, 'height': z, 'omega': om, 'phi': ph, 'kappa': ka}
    return (n.get_world_xs(t), n.get_world_ys(t), n.get_alts(t), n.get_rolls(t), n.get_pitches(t), n.get_headings(t))


def eo__spec(t, time, x, y, z, om, ph, ka):
    """each query interpolates its own channel between the records around each time; nothing outside the recorded span"""
    if not ((time[0] <= t).all() and (time[-1] >= t).all()):
        return None, None, None, None, None, None
    r = np.searchsorted(time, t)
    l = r - 1
    out = []
    for c in (x, y, z, om, ph, ka):
        out.append((c[l] * (time[r] - t) + c[r] * (t - time[l])) / (time[r] - time[l]))
    return out[0], out[1], out[2], out[3], out[4], out[5]


def records__code(t: Arr(1), time: Arr(1), a: Arr(1), b: Arr(1)):
    n = ApplanixSBETNav()
    n._nav_data = {'gps_time': time, 'a': a, 'b': b}
    return n.get_nav_records(t)


def records__spec(t, time, a, b):
    """a record holds every channel, interpolated, one record per time"""
    if not ((time[0] <= t).all() and (time[-1] >= t).all()):
        return None
    r = np.searchsorted(time, t)
    l = r - 1
    d = {}
    for k, c in (('gps_time', time), ('a', a), ('b', b)):
        d[k] = (c[l] * (time[r] - t) + c[r] * (t - time[l])) / (time[r] - time[l])
    return np.array([{'gps_time': d['gps_time'][i], 'a': d['a'][i], 'b': d['b'][i]} for i in range(t.size)])


def eo_records__code(t: Arr(1), time: Arr(1), a: Arr(1), b: Arr(1)):
    n = ApplanixEONav()
    n._nav_data = {'gps_time': time, 'a': a, 'b': b}
    return n.get_nav_records(t)


def eo_records__spec(t, time, a, b):
    """a record holds every channel, interpolated, one record per time"""
    if not ((time[0] <= t).all() and (time[-1] >= t).all()):
        return None
    r = np.searchsorted(time, t)
    l = r - 1
    d = {}
    for k, c in (('gps_time', time), ('a', a), ('b', b)):
        d[k] = (c[l] * (time[r] - t) + c[r] * (t - time[l])) / (time[r] - time[l])
    return np.array([{'gps_time': d['gps_time'][i], 'a': d['a'][i], 'b': d['b'][i]} for i in range(t.size)])


def grids__code(n: Obj('resippy.photogrammetry.nav.abstract_nav.AbstractNav'), g: Arr(2), s: Scalar):
    return (n.get_world_xs(g), n.get_world_ys(g), n.get_alts(g), n.get_rolls(g), n.get_pitches(g), n.get_headings(g), n.get_nav_records(g))


def grids__spec(n, g, s):
    """a grid of times gives the flattened answers in row-major order, or None when there is none"""
    ny, nx = g.shape
    v = np.reshape(g, ny * nx)
    a = n._get_world_xs_native(v)
    b = n._get_world_ys_native(v)
    c = n._get_alts_native(v)
    d = n._get_rolls_native(v)
    e = n._get_pitches_native(v)
    f = n._get_headings_native(v)
    r = n._get_nav_records_native(v)
    return (None if a is None else np.reshape(a, (ny, nx)), None if b is None else np.reshape(b, (ny, nx)), None if c is None else np.reshape(c, (ny, nx)),
            None if d is None else np.reshape(d, (ny, nx)), None if e is None else np.reshape(e, (ny, nx)), None if f is None else np.reshape(f, (ny, nx)),
            None if r is None else np.reshape(r, (ny, nx)))


def single__code(n: Obj('resippy.photogrammetry.nav.abstract_nav.AbstractNav'), s: Scalar):
    return (n.get_world_xs(s), n.get_world_ys(s), n.get_alts(s), n.get_rolls(s), n.get_pitches(s), n.get_headings(s), n.get_nav_records(s))


def single__spec(n, s):
    """a single time gives a single answer"""
    v = np.array([s])
    a = n._get_world_xs_native(v)
    b = n._get_world_ys_native(v)
    c = n._get_alts_native(v)
    d = n._get_rolls_native(v)
    e = n._get_pitches_native(v)
    f = n._get_headings_native(v)
    r = n._get_nav_records_native(v)
    return (None if a is None else a[0], None if b is None else b[0], None if c is None else c[0], None if d is None else d[0],
            None if e is None else e[0], None if f is None else f[0], None if r is None else r[0])


def load_eo__code(fn: Str, proj: Str, zone: Val, ell: Str, dat: Str):
    n = NavFactory.from_applanix_eo_file(fn, proj, zone, ell, dat)
    return n._nav_data, n.get_projection(), n.get_num_records(), n.get_record_length()


def load_eo__spec(fn, proj, zone, ell, dat):
    """columns 2 to 10 of every data line, in the documented order; the projection is built from the caller's parameters"""
    d = {'gps_time': [], 'easting': [], 'northing': [], 'height': [], 'omega': [], 'phi': [], 'kappa': [], 'lat': [], 'lon': []}
    with open(fn) as f:
        for line in f:
            w = line.split()
            try:
                v = [float(w[i]) for i in range(1, 10)]
            except (IndexError, ValueError):
                continue
            d['gps_time'].append(v[0])
            d['easting'].append(v[1])
            d['northing'].append(v[2])
            d['height'].append(v[3])
            d['omega'].append(v[4])
            d['phi'].append(v[5])
            d['kappa'].append(v[6])
            d['lat'].append(v[7])
            d['lon'].append(v[8])
    p = pyproj.Proj(proj=proj, zone=zone, ellps=ell, datum=dat, preserve_units=True) if zone else pyproj.Proj(proj=proj, ellps=ell, datum=dat, preserve_units=True)
    return ({'gps_time': np.array(d['gps_time']), 'easting': np.array(d['easting']), 'northing': np.array(d['northing']), 'height': np.array(d['height']),
             'omega': np.array(d['omega']), 'phi': np.array(d['phi']), 'kappa': np.array(d['kappa']), 'lat': np.array(d['lat']), 'lon': np.array(d['lon'])},
            p, len(d['gps_time']), 9)


def load_sbet__code(fn: Str, proj: Str, zone: Val, ell: Str, dat: Str):
    n = NavFactory.from_applanix_sbet_file(fn, proj, zone, ell, dat)
    return n._nav_data, n.get_projection(), n.get_num_records(), n.get_record_length()


def load_sbet__spec(fn, proj, zone, ell, dat):
    """every field of the point records under its snake-case name"""
    pipe = pdal.Pipeline(json.dumps([{'type': 'readers.sbet', 'filename': fn}]))
    pipe.validate()
    n = pipe.execute()
    a = pipe.arrays[0]
    p = pyproj.Proj(proj=proj, zone=zone, ellps=ell, datum=dat, preserve_units=True) if zone else pyproj.Proj(proj=proj, ellps=ell, datum=dat, preserve_units=True)
    return {convert_to_snake_case(name): a[name] for name in a.dtype.names}, p, n, len(a.dtype.names)


INCLUDE = ['P41.flights']
