"""Pix4D result files."""
import os
import numpy as np
import osgeo.osr as osr
from pyproj import Proj
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.pix4d_point_calc import Pix4dPointCalc
from resippy.utils import pix4d_utils, string_utils

OPTS = {
    'project': {'opaque': ['resippy.utils.pix4d_utils.read_calibrated_external_camera_parameters', 'resippy.utils.pix4d_utils.read_calibrated_camera_parameters',
                           'resippy.utils.pix4d_utils.read_pix4d_calibrated_internal_camera_parameters', 'resippy.utils.pix4d_utils.create_r_matrix']},
    'found': {'opaque': ['resippy.utils.pix4d_utils.read_calibrated_external_camera_parameters', 'resippy.utils.pix4d_utils.read_calibrated_camera_parameters',
                         'resippy.utils.pix4d_utils.read_pix4d_calibrated_internal_camera_parameters', 'resippy.utils.pix4d_utils.create_r_matrix']},
}


def rotation__code(e: Vec(6)):
    return pix4d_utils.create_r_matrix(e)


def rotation__spec(e):
    """R = Rx(omega) Ry(phi) Rz(kappa), angles in degrees, in the order of the external parameter file"""
    o, p, k = e[3] * np.pi / 180, e[4] * np.pi / 180, e[5] * np.pi / 180
    rx = np.array([[1, 0, 0], [0, np.cos(o), -np.sin(o)], [0, np.sin(o), np.cos(o)]])
    ry = np.array([[np.cos(p), 0, np.sin(p)], [0, 1, 0], [-np.sin(p), 0, np.cos(p)]])
    rz = np.array([[np.cos(k), -np.sin(k), 0], [np.sin(k), np.cos(k), 0], [0, 0, 1]])
    return rx @ ry @ rz


def external__code(fn: Str):
    return pix4d_utils.read_calibrated_external_camera_parameters(fn)


def external__spec(fn):
    """one entry per line after the header: position then angles, by image name"""
    r = {}
    with open(fn) as f:
        lines = f.readlines()
    for t in lines[1:]:
        name, x, y, z, o, p, k = string_utils.remove_newlines(t).split(' ')
        r[name] = [float(x), float(y), float(z), float(o), float(p), float(k)]
    return r


def external__spec2(fn):
    r = {}
    with open(fn) as f:
        lines = f.readlines()
    for t in lines[1:]:
        name, x, y, z, o, p, k = t.split()
        r[name] = [float(x), float(y), float(z), float(o), float(p), float(k)]
    return r


def pmatrix__code(fn: Str):
    return pix4d_utils.read_p_matrices(fn)


def pmatrix__spec(fn):
    """one projection matrix per line: image name, then its elements"""
    r = {}
    with open(fn) as f:
        lines = f.readlines()
    for t in lines:
        w = string_utils.remove_newlines(t.strip()).split(' ')
        r[w[0]] = np.asarray(w[1:], dtype=float)
    return r


def _row(s):
    return list(map(float, s.split()))


def calibrated__code(fn: Str):
    return pix4d_utils.read_calibrated_camera_parameters(fn)


def calibrated__spec(fn):
    """eight header lines, then ten lines per image: name and size, K (3), radial, tangential, t, R (3)"""
    r = {}
    with open(fn) as f:
        lines = f.readlines()
    lines = [string_utils.remove_newlines(t) for t in lines][8:]
    for b in range(0, len(lines), 10):
        p = lines[b:b + 10]
        name, w, h = p[0].split(' ')
        r[name] = {'n_x_pixels': int(w), 'n_y_pixels': int(h),
                   'camera_matrix_k': np.array([_row(t) for t in p[1:4]]),
                   'radial_distortion': np.squeeze(np.array([_row(t) for t in p[4:5]])),
                   'tangential_distortion': np.squeeze(np.array([_row(t) for t in p[5:6]])),
                   'camera_position_t': np.array([_row(t) for t in p[6:7]]),
                   'camera_rotation_r': np.array([_row(t) for t in p[7:10]])}
    return r


def calibrated__spec2(fn):
    """eight header lines, then ten lines per image: name and size, K (3), radial, tangential, t, R (3)"""
    r = {}
    with open(fn) as f:
        lines = f.readlines()
    lines = [string_utils.remove_newlines(t) for t in lines][8:]
    for b in range(0, len(lines), 10):
        p = lines[b:b + 10]
        name, w, h = p[0].split(' ')
        r[name] = {'n_x_pixels': int(w), 'n_y_pixels': int(h),
                   'camera_matrix_k': np.array([_row(t) for t in p[1:4]]),
                   'radial_distortion': np.squeeze(np.array(_row(p[4]))),
                   'tangential_distortion': np.squeeze(np.array(_row(p[5]))),
                   'camera_position_t': np.array([_row(t) for t in p[6:7]]),
                   'camera_rotation_r': np.array([_row(t) for t in p[7:10]])}
    return r


def calibrated__spec3(fn):
    """eight header lines, then ten lines per image: name and size, K (3), radial, tangential, t, R (3)"""
    r = {}
    with open(fn) as f:
        lines = f.readlines()
    lines = [string_utils.remove_newlines(t) for t in lines][8:]
    for b in range(0, len(lines), 10):
        p = lines[b:b + 10]
        name, w, h = p[0].split(' ')
        r[name] = {'n_x_pixels': int(w), 'n_y_pixels': int(h),
                   'camera_matrix_k': np.array([_row(t) for t in p[1:4]]),
                   'radial_distortion': np.squeeze(np.array(_row(p[4]))),
                   'tangential_distortion': np.squeeze(np.array(_row(p[5]))),
                   'camera_position_t': np.array([_row(p[6])]),
                   'camera_rotation_r': np.array([_row(t) for t in p[7:10]])}
    return r


def calibrated__spec4(fn):
    """eight header lines, then ten lines per image: name and size, K (3), radial, tangential, t, R (3)"""
    r = {}
    with open(fn) as f:
        lines = f.readlines()
    lines = [string_utils.remove_newlines(t) for t in lines][8:]
    for b in range(0, len(lines), 10):
        p = lines[b:b + 10]
        name, w, h = p[0].split(' ')
        r[name] = {'n_x_pixels': int(w), 'n_y_pixels': int(h),
                   'camera_matrix_k': np.array([_row(t) for t in p[1:4]]),
                   'radial_distortion': np.array(_row(p[4])),
                   'tangential_distortion': np.array(_row(p[5])),
                   'camera_position_t': np.array([_row(p[6])]),
                   'camera_rotation_r': np.array([_row(t) for t in p[7:10]])}
    return r


def internal__code(fn: Str, mark: Str):
    return pix4d_utils.read_pix4d_calibrated_internal_camera_parameters(fn, mark)


def internal__spec(fn, mark):
    """one camera per marker line, up to the next marker: key value lines, focal plane size from its comment"""
    with open(fn) as f:
        lines = f.readlines()
    lines = [string_utils.remove_newlines(t) for t in lines]
    starts = [i for i in range(len(lines)) if mark in lines[i]]
    ends = starts[1:] + [len(lines)]
    cams = []
    for i in range(len(starts)):
        d = {}
        for t in [t for t in lines[starts[i] + 1:ends[i]] if t != '']:
            if t.startswith('#'):
                if 'Focal Length mm' in t:
                    w, h = t[t.rfind(' ') + 1:].replace('mm', '').split('x')
                    d['fpa_width_mm'] = float(w)
                    d['fpa_height_mm'] = float(h)
            else:
                k, v = t.split(' ')
                d[k] = float(v)
        cams.append(d)
    return cams


def project__code(base: Str, e: Str, i: Str, c: Str, w: Str):
    return pix4d_utils.make_master_dict(base, e, i, c, w)


def project__spec(base, e, i, c, w):
    """every image of the project with its calibration, its own exterior, its own camera and rotation; the projection of the project"""
    os.listdir(base)
    ext = pix4d_utils.read_calibrated_external_camera_parameters(os.path.join(base, e))
    cams = pix4d_utils.read_pix4d_calibrated_internal_camera_parameters(os.path.join(base, i))
    cal = pix4d_utils.read_calibrated_camera_parameters(os.path.join(base, c))
    with open(os.path.join(base, w), 'r') as f:
        wkt = f.read()
    s = osr.SpatialReference()
    s.ImportFromWkt(wkt)
    r = {'projection': Proj(s.ExportToProj4())}
    for name in cal.keys():
        d = {}
        for k in cal[name]:
            d[k] = cal[name][k]
        d['external_params'] = ext[name]
        t = os.path.splitext(name)[0].split('_')[-1]
        if len(t) != 1:
            raise ValueError
        d['internal_params'] = cams[int(t) - 1]
        d['r_matrix_computed'] = pix4d_utils.create_r_matrix(ext[name])
        r[name] = d
    return r


def _first(names, end):
    return [s for s in names if s.endswith(end)][0]


def found__code(base: Str):
    return pix4d_utils.make_master_dict(base)


def found__spec(base):
    """files not named are found in the project directory by their Pix4D endings"""
    names = os.listdir(base)
    return pix4d_utils.make_master_dict(base, _first(names, 'calibrated_external_camera_parameters.txt'), _first(names, 'pix4d_calibrated_internal_camera_parameters.cam'),
                                        _first(names, 'calibrated_camera_parameters.txt'), _first(names, 'wkt.prj'))


def calc_external__code(fn: Str):
    return Pix4dPointCalc().read_calibrated_external_camera_parameters(fn)


def calc_external__spec(fn):
    """the point calculator's own reader returns what the Pix4D utilities return"""
    return pix4d_utils.read_calibrated_external_camera_parameters(fn)


def calc_external__spec2(fn):
    return external__spec(fn)


def calc_internal__code(fn: Str, mark: Str):
    return Pix4dPointCalc().read_pix4d_calibrated_internal_camera_parameters(fn, mark)


def calc_internal__spec(fn, mark):
    """the point calculator's own reader returns one camera per marker line, up to the next marker"""
    return internal__spec(fn, mark)


INCLUDE = ['P09.distorted', 'P09.plain']
