"""RPC: 20-term cubic rational polynomial."""
import numpy as np
import gdal
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc import RPCPointCalc


def _cubic(c, P, L, H):
    """RPC00B term order"""
    return (c[0] + c[1] * L + c[2] * P + c[3] * H + c[4] * L * P + c[5] * L * H + c[6] * P * H + c[7] * L ** 2 + c[8] * P ** 2 + c[9] * H ** 2
            + c[10] * P * L * H + c[11] * L ** 3 + c[12] * L * P ** 2 + c[13] * L * H ** 2 + c[14] * L ** 2 * P + c[15] * P ** 3
            + c[16] * P * H ** 2 + c[17] * L ** 2 * H + c[18] * P ** 2 * H + c[19] * H ** 3)


def _rpc(sn, sd, ss, so, ln, ld, ls, lo, las, lao, los, loo, hs, ho, lons, lats, alts):
    P = (lats - lao) / las
    L = (lons - loo) / los
    H = (alts - ho) / hs
    x = _cubic(sn, P, L, H) / _cubic(sd, P, L, H) * ss + so + 0.5
    y = _cubic(ln, P, L, H) / _cubic(ld, P, L, H) * ls + lo + 0.5
    return x, y


def forward__code(sn: Vec(20), sd: Vec(20), ss: Scalar, so: Scalar, ln: Vec(20), ld: Vec(20), ls: Scalar, lo: Scalar, las: Scalar, lao: Scalar,
                  los: Scalar, loo: Scalar, hs: Scalar, ho: Scalar, lons: Arr(1), lats: Arr(1), alts: Arr(1)):
    pc = RPCPointCalc.init_from_coeffs(sn, sd, ss, so, ln, ld, ls, lo, las, lao, los, loo, hs, ho)
    return pc.lon_lat_alt_to_pixel_x_y(lons, lats, alts), pc.get_approximate_lon_lat_center(), pc._pixel_x_y_alt_to_lon_lat_native(lons, lats, alts)


def forward__spec(sn, sd, ss, so, ln, ld, ls, lo, las, lao, los, loo, hs, ho, lons, lats, alts):
    """sample and line are ratios of cubics in normalised lat (P), lon (L), height (H), scaled, offset, plus the half-pixel shift; no closed inverse"""
    return _rpc(sn, sd, ss, so, ln, ld, ls, lo, las, lao, los, loo, hs, ho, lons, lats, alts), (loo, lao), None


def _coeffs(s):
    return np.array([float(v) for v in s.split()])


def from_file__code(fname: Str, lons: Arr(1), lats: Arr(1), alts: Arr(1)):
    pc = RPCPointCalc.init_from_file(fname)
    return pc.lon_lat_alt_to_pixel_x_y(lons, lats, alts), pc.get_approximate_lon_lat_center(), pc.bands_coregistered()


def from_file__spec(fname, lons, lats, alts):
    """every coefficient comes from its own metadata key"""
    d = gdal.Open(fname).GetMetadata("RPC")
    r = _rpc(_coeffs(d['SAMP_NUM_COEFF']), _coeffs(d['SAMP_DEN_COEFF']), float(d['SAMP_SCALE']), float(d['SAMP_OFF']),
             _coeffs(d['LINE_NUM_COEFF']), _coeffs(d['LINE_DEN_COEFF']), float(d['LINE_SCALE']), float(d['LINE_OFF']),
             float(d['LAT_SCALE']), float(d['LAT_OFF']), float(d['LONG_SCALE']), float(d['LONG_OFF']),
             float(d['HEIGHT_SCALE']), float(d['HEIGHT_OFF']), lons, lats, alts)
    return r, (float(d['LONG_OFF']), float(d['LAT_OFF'])), True


INCLUDE = ['P41.rpc']
