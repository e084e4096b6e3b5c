"""MicaSense five-band captures."""
import os
import numpy as np
import exifread
from uuid import uuid4
from PIL import Image
from imageio import imread
from resippy.utils import time_utils
from resippy.image_objects.earth_overhead.micasense.micasense_image import MicasenseImage
from resippy.image_objects.earth_overhead.micasense.micasense_image_factory import MicasenseImageFactory
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.opencv_point_calc import OpenCVPointCalc

OPTS = {
    'capture': {'opaque': ['resippy.utils.time_utils.utc_timestamp_to_gps_week_and_seconds']},
    'pix4d': {'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc.Pix4dPointCalc.init_from_params']},
    'pix4d_band': {'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc.Pix4dPointCalc.init_from_params']},
    'opencv': {'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.opencv_point_calc.OpenCVPointCalc.init_from_params']},
    'from_array': {'effects': r'save$'},
    'from_array_unnamed': {'effects': r'save$'},
}


def read__code(a: Str, b: Str, c: Str, d: Str, e: Str):
    m = MicasenseImage()
    m.band_fnames = [a, b, c, d, e]
    return m.read_all_image_data_from_disk(), m.read_band_from_disk(0), m.read_band_from_disk(3), m.read_band_from_disk(4)


def read__spec(a, b, c, d, e):
    """band k of the capture is the image in the k-th file"""
    return np.stack([imread(a), imread(b), imread(c), imread(d), imread(e)], axis=2), imread(a), imread(d), imread(e)


def read__spec2(a, b, c, d, e):
    return np.dstack([imread(a), imread(b), imread(c), imread(d), imread(e)]), imread(a), imread(d), imread(e)


def read__spec3(a, b, c, d, e):
    return np.dstack([imread(f) for f in [a, b, c, d, e]]), imread(a), imread(d), imread(e)


def _dms(t):
    return t.values[0].num / t.values[0].den + t.values[1].num / t.values[1].den / 60 + t.values[2].num / t.values[2].den / 3600


def position__code(t: Val, r: Val):
    return MicasenseImage._dms_tag_to_dd(t, r)


def position__spec(t, r):
    """degrees, minutes and seconds as decimal degrees; south and west are negative"""
    if r.values == 'S' or r.values == 'W':
        return -_dms(t)
    return _dms(t)


def capture__code(a: Str, b: Str, c: Str):
    m = MicasenseImage()
    m.band_fnames = [a, b, c]
    return m.get_gps_timestamp_and_center(1)


def capture__spec(a, b, c):
    """GPS seconds of week of the capture instant (UTC tag), sub-second tag as decimals, position of the band asked for"""
    with open(b, 'rb') as f:
        x = exifread.process_file(f, details=False)
    s = x['EXIF DateTimeOriginal'].values
    from datetime import datetime, timezone
    t = datetime(int(s[0:4]), int(s[5:7]), int(s[8:10]), int(s[11:13]), int(s[14:16]), int(s[17:19]), tzinfo=timezone.utc).timestamp()
    w, sec = time_utils.utc_timestamp_to_gps_week_and_seconds(t)
    sub = float('0.{}'.format(str(x['EXIF SubSecTime']).strip()))
    lon = MicasenseImage._dms_tag_to_dd(x['GPS GPSLongitude'], x['GPS GPSLongitudeRef'])
    lat = MicasenseImage._dms_tag_to_dd(x['GPS GPSLatitude'], x['GPS GPSLatitudeRef'])
    return {'gps_timestamp': sec + sub, 'center': {'lon': lon, 'lat': lat}}


def _describe(m):
    md = m.get_metadata()
    sm = m.get_point_calculator()
    return m.band_fnames, md.get_n_bands(), md.get_npix_x(), md.get_npix_y(), md.get_nodata_val(), md.get_image_name(), sm.get_projection(), sm.bands_coregistered()


def _name(fn):
    base, ext = os.path.splitext(fn)
    return '_'.join(base.split('_')[:-1])


def pix4d__code(a: Str, b: Str, c: Str, d: Str, e: Str, p: Val):
    return _describe(MicasenseImageFactory.from_image_number_and_pix4d({'band1': a, 'band2': b, 'band3': c, 'band4': d, 'band5': e}, p))


def _pc(f, p):
    pc = Pix4dPointCalc.init_from_params(f, p)
    pc.reverse_x_pixels = True
    pc.reverse_y_pixels = True
    return pc


def pix4d__spec(a, b, c, d, e, p):
    """five 1280 x 960 bands in order, not coregistered, nodata 0, named after the capture, projection of the first band"""
    pc = _pc(a, p)
    _pc(b, p)
    _pc(c, p)
    _pc(d, p)
    _pc(e, p)
    return [a, b, c, d, e], 5, 1280, 960, 0, _name(a), pc.get_projection(), False


def pix4d_band__code(a: Str, b: Str, c: Str, d: Str, e: Str, p: Val):
    m = MicasenseImageFactory.from_image_number_and_pix4d({'band1': a, 'band2': b, 'band3': c, 'band4': d, 'band5': e}, p)
    sm = m.get_point_calculator()
    return sm.get_point_calcs(), sm.get_approximate_lon_lat_center()


def pix4d_band__spec(a, b, c, d, e, p):
    """each band is geolocated with the parameters of its own file, axes reversed; the capture sits where its first band does"""
    r = []
    for f in (a, b, c, d, e):
        r.append(_pc(f, p))
    return r, tuple(r[0].get_approximate_lon_lat_center())


def _cv(f, params):
    n = int(f[f.rfind('.') - 1])
    pc = OpenCVPointCalc.init_from_params([q for q in params if q['band_number'] == n][0])
    pc.reverse_x_pixels = True
    pc.reverse_y_pixels = True
    return pc


def opencv__code(a: Str, b: Str, c: Str, d: Str, e: Str, p: Val):
    m = MicasenseImageFactory.from_image_number_and_opencv({'band1': a, 'band2': b, 'band3': c, 'band4': d, 'band5': e}, p)
    return m.get_point_calculator().get_point_calcs(), m.band_fnames, m.get_metadata().get_image_name(), m.get_point_calculator().get_projection()


def opencv__spec(a, b, c, d, e, p):
    """each band is geolocated with the camera whose band number ends its file name"""
    r = [_cv(f, p) for f in (a, b, c, d, e)]
    return r, [a, b, c, d, e], _name(a), r[0].get_projection()


def from_array__code(x: Arr(3), md: Val, pc: Val, wd: Str, names: StrList):
    m = MicasenseImageFactory.from_numpy_and_pix4d(x, md, pc, wd, names)
    return m.get_metadata(), m.get_point_calculator(), m.band_fnames


def from_array__spec(x, md, pc, wd, names):
    """the image carries the metadata and geolocation it was given; band k is in the k-th named file"""
    r = []
    for b in range(x.shape[2]):
        fn = os.path.join(wd, names[b])
        Image.fromarray(np.squeeze(x[:, :, b])).save(fn)
        r.append(fn)
    return md, pc, r


def from_array_unnamed__code(x: Arr(3), md: Val, pc: Val):
    m = MicasenseImageFactory.from_numpy_and_pix4d(x, md, pc)
    return m.get_metadata(), m.get_point_calculator(), m.band_fnames


def from_array_unnamed__spec(x, md, pc):
    """without names every band gets a file name of its own, in the user's temporary directory"""
    d = os.path.join('/tmp', os.path.basename(os.getenv('HOME')))
    r = []
    for b in range(x.shape[2]):
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, str(uuid4().hex) + '.tif')
        Image.fromarray(np.squeeze(x[:, :, b])).save(fn)
        r.append(fn)
    return md, pc, r


INCLUDE = ['P24.to_gps', 'P24.week', 'P37.forward', 'P37.inverse']
