"""the iterative inverse."""
import numpy as np
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc import AbstractEarthOverheadPointCalc


def _step(pc, lons, lats, xs, ys, alts, dl, dt, band):
    x0, y0 = pc.lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
    xl, yl = pc.lon_lat_alt_to_pixel_x_y(lons + dl, lats, alts, band=band)
    xt, yt = pc.lon_lat_alt_to_pixel_x_y(lons, lats + dt, alts, band=band)
    a = (xl - x0) / dl
    b = (xt - x0) / dt
    c = (yl - y0) / dl
    d = (yt - y0) / dt
    ex = xs - x0
    ey = ys - y0
    det = a * d - b * c
    step_lat = (a * ey - c * ex) / det
    return lons + (ex - b * step_lat) / a, lats + step_lat


def newton__code(pc: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'),
                 xs: Arr(1), ys: Arr(1), alts: Arr(1), dl: Scalar, dt: Scalar, band: Any, err: Scalar, n: Scalar):
    return pc._pixel_x_y_alt_to_lon_lat_native_solver(xs, ys, alts, d_lon=dl, d_lat=dt, band=band, max_pixel_error=err, max_iter=n)


def newton__spec(pc, xs, ys, alts, dl, dt, band, err, n):
    """from the approximate centre, at most n Newton steps on the 2x2 finite-difference Jacobian, stopping once both pixel residuals of the
    returned point are within the threshold for every pixel"""
    clon, clat = pc.get_approximate_lon_lat_center()
    lons = np.zeros(xs.shape) + clon
    lats = np.zeros(xs.shape) + clat
    for i in range(n):
        lons, lats = _step(pc, lons, lats, xs, ys, alts, dl, dt, band)
        x, y = pc.lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
        if np.max(np.abs(xs - x)) <= err and np.max(np.abs(ys - y)) <= err:
            break
    return lons, lats


def one_step__code(pc: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'),
                   xs: Arr(1), ys: Arr(1), alts: Arr(1), dl: Scalar, dt: Scalar, band: Any, err: Scalar):
    return pc._pixel_x_y_alt_to_lon_lat_native_solver(xs, ys, alts, d_lon=dl, d_lat=dt, band=band, max_pixel_error=err, max_iter=1)


def one_step__spec(pc, xs, ys, alts, dl, dt, band, err):
    """one iteration is one Newton step"""
    clon, clat = pc.get_approximate_lon_lat_center()
    return _step(pc, np.zeros(xs.shape) + clon, np.zeros(xs.shape) + clat, xs, ys, alts, dl, dt, band)


def _first(x, y):
    return np.where(np.square(x) + np.square(y) > 1)[0][0]


def step_size__code(pc: Obj('resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'),
                    xs: Arr(1), ys: Arr(1), alts: Arr(1), band: Any, err: Scalar):
    return pc._pixel_x_y_alt_to_lon_lat_native_solver(xs, ys, alts, band=band, max_pixel_error=err, max_iter=1)


def step_size__spec(pc, xs, ys, alts, band, err):
    """the default finite-difference steps are the first powers of two times epsilon that move the centre by more than one pixel, at the mean
    altitude and in the requested band"""
    clon, clat = pc.get_approximate_lon_lat_center()
    lons = np.zeros(xs.shape) + clon
    lats = np.zeros(xs.shape) + clat
    eps = np.finfo(lons.dtype).eps
    big = np.finfo(lons.dtype).max / 4
    steps = []
    s = eps
    while s < big:
        steps.append(s)
        s = s * 2
    steps = np.array(steps)
    base_lons = np.zeros(steps.shape) + clon
    base_lats = np.zeros(steps.shape) + clat
    alt = np.average(alts)
    p0 = pc.lon_lat_alt_to_pixel_x_y(clon, clat, alt, band=band)
    xl, yl = pc.lon_lat_alt_to_pixel_x_y(base_lons + steps, base_lats, alt, band=band)
    xt, yt = pc.lon_lat_alt_to_pixel_x_y(base_lons, base_lats + steps, alt, band=band)
    if np.isnan(xl - p0[0]).max():
        dl = 2
        dt = 2
    else:
        i = _first(xl - p0[0], yl - p0[1])
        j = _first(xt - p0[0], yt - p0[1])
        dl = (base_lons + steps)[i] - clon
        dt = (base_lats + steps)[j] - clat
    return _step(pc, lons, lats, xs, ys, alts, dl, dt, band)


OPTS = {
    'newton': {'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc.lon_lat_alt_to_pixel_x_y']},
    'one_step': {'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc.lon_lat_alt_to_pixel_x_y']},
    'step_size': {'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc.lon_lat_alt_to_pixel_x_y']},
}


INCLUDE = ['P01.inverse']
