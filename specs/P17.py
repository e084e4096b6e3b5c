"""ENVI headers and image cubes."""
import os
import gdal
import numpy as np
from resippy.utils import envi_utils, string_utils
from resippy.image_objects.envi.envi_image_factory import EnviImageFactory
from resippy.image_objects.image_factory import ImageFactory


def dtypes__code():
    return (envi_utils.envi_dtype_to_numpy_dtype(1), envi_utils.envi_dtype_to_numpy_dtype(2), envi_utils.envi_dtype_to_numpy_dtype(3),
            envi_utils.envi_dtype_to_numpy_dtype(4), envi_utils.envi_dtype_to_numpy_dtype(5), envi_utils.envi_dtype_to_numpy_dtype(6),
            envi_utils.envi_dtype_to_numpy_dtype(9), envi_utils.envi_dtype_to_numpy_dtype(12), envi_utils.envi_dtype_to_numpy_dtype(13),
            envi_utils.envi_dtype_to_numpy_dtype(14), envi_utils.envi_dtype_to_numpy_dtype(15), envi_utils.envi_dtype_to_numpy_dtype('4'))


def dtypes__spec():
    """the ENVI data type codes as documented: 1 byte, 2/3/14 signed 16/32/64, 12/13/15 unsigned 16/32/64, 4/5 float 32/64, 6/9 complex 2x32/2x64"""
    return (np.uint8, np.int16, np.int32, np.float32, np.float64, np.complex64, np.complex128, np.uint16, np.uint32, np.int64, np.uint64, np.float32)


def codes__code():
    return (envi_utils.numpy_dtype_to_envi_dtype(np.uint8), envi_utils.numpy_dtype_to_envi_dtype(np.int16), envi_utils.numpy_dtype_to_envi_dtype(np.int32),
            envi_utils.numpy_dtype_to_envi_dtype(np.float32), envi_utils.numpy_dtype_to_envi_dtype(np.float64), envi_utils.numpy_dtype_to_envi_dtype(np.complex64),
            envi_utils.numpy_dtype_to_envi_dtype(np.complex128), envi_utils.numpy_dtype_to_envi_dtype(np.uint16), envi_utils.numpy_dtype_to_envi_dtype(np.uint32),
            envi_utils.numpy_dtype_to_envi_dtype(np.int64), envi_utils.numpy_dtype_to_envi_dtype(np.uint64))


def codes__spec():
    """and back"""
    return 1, 2, 3, 4, 5, 6, 9, 12, 13, 14, 15


def bad_code_7__code():
    return envi_utils.envi_dtype_to_numpy_dtype(7)


def bad_code_7__spec():
    """codes ENVI does not define are refused"""
    raise ValueError


def bad_code_11__code():
    return envi_utils.envi_dtype_to_numpy_dtype(11)


def bad_code_11__spec():
    """codes ENVI does not define are refused"""
    raise ValueError


def bad_code_16__code():
    return envi_utils.envi_dtype_to_numpy_dtype(16)


def bad_code_16__spec():
    """codes ENVI does not define are refused"""
    raise ValueError


def build__code(raw: Arr(1), nx: Scalar, ny: Scalar, nb: Scalar, il: Str):
    return envi_utils.construct_image_cube_from_raw_data(raw, nx, ny, nb, il)


def build__spec(raw, nx, ny, nb, il):
    """bsq stores whole bands, bil one line of each band in turn, bip one pixel of all bands; anything else is refused"""
    if il == 'bsq':
        return np.transpose(np.reshape(raw, (nb, ny, nx)), (1, 2, 0))
    if il == 'bil':
        return np.transpose(np.reshape(raw, (ny, nb, nx)), (0, 2, 1))
    if il == 'bip':
        return np.reshape(raw, (ny, nx, nb))
    raise ValueError


def raw__code(fname: Str, code: Const(4), off: Scalar, order: Scalar):
    return envi_utils.read_all_image_data_to_numpy_array(fname, code, off, order)


def raw__spec(fname, code, off, order):
    """bytes after the header offset, in the header's byte order (1 is big endian)"""
    dt = np.dtype(np.float32)
    if order == 1:
        dt = dt.newbyteorder('>')
    return np.fromfile(fname, dt, offset=off)


def raw_default__code(fname: Str, code: Const(12)):
    return envi_utils.read_all_image_data_to_numpy_array(fname, code)


def raw_default__spec(fname, code):
    """without an offset or byte order the whole file is little endian"""
    return np.fromfile(fname, np.dtype(np.uint16), offset=0)


def write__code(cube: Arr(3), out: Str, hdr: Str, il: Str):
    envi_utils.write_envi_image(cube, out, hdr, il)


def write__spec(cube, out, hdr, il):
    """the bytes are the cube's own values in its own type, in the interleave asked for; anything else is refused"""
    ny, nx, nb = cube.shape
    if il == 'bil':
        raw = np.transpose(cube, (0, 2, 1)).ravel()
    elif il == 'bip':
        raw = cube.ravel()
    elif il == 'bsq':
        raw = np.transpose(cube, (2, 0, 1)).ravel()
    else:
        raise ValueError
    raw.tofile(out)


def header__code(cube: Arr(3), out: Str, hdr: Str):
    envi_utils.write_envi_image(cube, out, hdr, 'bsq')


def header__spec(cube, out, hdr):
    """the header names the cube's size, the code of its data type and the interleave written, one "key = value" per line after the magic word"""
    ny, nx, nb = cube.shape
    code = envi_utils.numpy_dtype_to_envi_dtype(cube.dtype)
    with open(hdr, 'w') as f:
        f.write('ENVI' + '\n')
        f.write('samples = ' + str(int(nx)))
        f.write('\n')
        f.write('lines = ' + str(int(ny)))
        f.write('\n')
        f.write('bands = ' + str(int(nb)))
        f.write('\n')
        f.write('data type = ' + str(int(code)))
        f.write('\n')
        f.write('interleave = ' + 'bsq')
        f.write('\n')


def header_name__code(cube: Arr(3), out: Str):
    envi_utils.write_envi_image(cube, out)


def header_name__spec(cube, out):
    """by default: header beside the image, line interleaved"""
    envi_utils.write_envi_image(cube, out, out + '.hdr', 'bil')


def read__code(img: Str, hdr: Str):
    return envi_utils.read_envi_image(img, hdr)


def read__spec(img, hdr):
    """the cube is built from the file's bytes by the sizes, type, offset, byte order and interleave of its header"""
    h = envi_utils.read_envi_header(hdr)
    raw = envi_utils.read_all_image_data_to_numpy_array(img, h['data type'], h.get('header offset', 0), h.get('byte order', 0))
    return envi_utils.construct_image_cube_from_raw_data(raw, int(h['samples']), int(h['lines']), int(h['bands']), h['interleave'])


def read_guess__code(img: Str):
    return envi_utils.read_envi_image(img)


def read_guess__spec(img):
    """without a header file: image.hdr, else the image name with its extension replaced"""
    hdr = None
    if os.path.exists(img[:-4] + '.hdr'):
        hdr = img[:-4] + '.hdr'
    if os.path.exists(img + '.hdr'):
        hdr = img + '.hdr'
    return envi_utils.read_envi_image(img, hdr)


def image__code(img: Str, hdr: Str, k: Scalar):
    im = EnviImageFactory.from_file(img, hdr)
    m = im.get_metadata()
    return im.read_band_from_disk(k), im.read_all_image_data_from_disk(), m.get_npix_x(), m.get_npix_y(), m.get_n_bands(), m.envi_header, m.get_nodata_val()


def image__spec(img, hdr, k):
    """ENVI image objects: band k of the file is its band k+1, all bands in order, size from the header"""
    d = gdal.Open(img, gdal.GA_ReadOnly)
    h = envi_utils.read_envi_header(hdr)
    planes = []
    for b in range(h['bands']):
        planes.append(d.GetRasterBand(b + 1).ReadAsArray())
    return d.GetRasterBand(k + 1).ReadAsArray(), np.stack(planes, axis=2), h['samples'], h['lines'], h['bands'], h, None


def image_guess__code(img: Str):
    return ImageFactory.envi.from_file(img).get_metadata().envi_header


def image_guess__spec(img):
    """without a header file: the image name with its extension replaced, else image.hdr"""
    hdr = None
    if os.path.exists(img + '.hdr'):
        hdr = img + '.hdr'
    if os.path.exists(img[:-4] + '.hdr'):
        hdr = img[:-4] + '.hdr'
    return envi_utils.read_envi_header(hdr)


def parse__code(fname: Str):
    return envi_utils.read_envi_header(fname)


def parse__spec(fname):
    """each "key = value" line and each "key = { ... }" entry (over any number of lines) gives the trimmed key its trimmed value, split at the first equals sign;
    unclosed braces are refused; sizes, offset, type and byte order are integers, wavelengths and widths are float arrays"""
    with open(fname, 'r') as f:
        text = f.read()
    text = string_utils.cleanup_newlines(text) + os.linesep
    d = {}
    while text is not '':
        key = ''
        val = ''
        nl = text.find(os.linesep)
        brace = text.find('{')
        eq = text.find('=')
        if brace != -1 and brace < nl:
            end = text.find('}')
            if end == -1:
                raise ValueError
            key, val = text[0:end].split('=', 1)
            text = text[end + 1:]
        elif eq != -1 and eq < nl:
            key, val = text[0:nl].split('=', 1)
            text = text[nl + 1:]
        elif nl != -1:
            text = text[nl + 1:]
        else:
            text = text[1:]
        d[key.strip()] = val.strip()
    if '' in d.keys():
        del d['']
    for k in d:
        if k.lower() in ('fwhm', 'wavelength'):
            t = d[k].replace(os.linesep, '').replace(' ', '').replace('{', '').replace('}', '')
            d[k] = np.array([float(x) for x in t.split(',')])
        if k.lower() in ('samples', 'lines', 'bands', 'header offset', 'data type', 'byte order', 'x start', 'y start'):
            d[k] = int(d[k].replace(' ', ''))
    return d


def parse__spec2(fname):
    with open(fname, 'r') as f:
        text = f.read()
    text = string_utils.cleanup_newlines(text) + os.linesep
    d = {}
    while text is not '':
        key = ''
        val = ''
        nl = text.find(os.linesep)
        brace = text.find('{')
        eq = text.find('=')
        if brace != -1 and brace < nl:
            end = text.find('}')
            if end == -1:
                raise ValueError
            key, val = text[0:end].split('=', 1)
            text = text[end + 1:]
        elif eq != -1 and eq < nl:
            key, val = text[0:nl].split('=', 1)
            text = text[nl + 1:]
        elif nl != -1:
            text = text[nl + 1:]
        else:
            text = text[1:]
        if key.strip():
            d[key.strip()] = val.strip()
    for k in d:
        if k.lower() in ('fwhm', 'wavelength'):
            t = d[k].replace(os.linesep, '').replace(' ', '').replace('{', '').replace('}', '')
            d[k] = np.array([float(x) for x in t.split(',')])
        if k.lower() in ('samples', 'lines', 'bands', 'header offset', 'data type', 'byte order', 'x start', 'y start'):
            d[k] = int(d[k].replace(' ', ''))
    return d


OPTS = {
    'build': {'dtypes': True},
    'write': {'effects': r'tofile', 'dtypes': True},
    'header': {'effects': r'write$|open'},
    'header_name': {'effects': r'write$|open|tofile', 'dtypes': True},
    'read': {'opaque': ['resippy.utils.envi_utils.read_envi_header', 'resippy.utils.envi_utils.read_all_image_data_to_numpy_array',
                        'resippy.utils.envi_utils.construct_image_cube_from_raw_data']},
    'read_guess': {'opaque': ['resippy.utils.envi_utils.read_envi_header', 'resippy.utils.envi_utils.read_all_image_data_to_numpy_array',
                              'resippy.utils.envi_utils.construct_image_cube_from_raw_data']},
    'image': {'opaque': ['resippy.utils.envi_utils.read_envi_header']},
    'image_guess': {'opaque': ['resippy.utils.envi_utils.read_envi_header']},
}


INCLUDE = ['P39.envi']
