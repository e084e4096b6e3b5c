"""geotransform point calculator."""
import numpy as np
import gdal
import osr
from pyproj import Proj
from shapely.geometry.geo import box
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.geotiff_point_calc import GeotiffPointCalc


def affine__code(g: Vec(6), xs: Arr(1), ys: Arr(1), alts: Arr(1)):
    c = GeotiffPointCalc()
    c.set_geot(g)
    i = c.get_inv_geot()
    return (c._pixel_x_y_alt_to_lon_lat_native(xs, ys, alts), c._lon_lat_alt_to_pixel_x_y_native(xs, ys, alts), c.get_geot(), i)


def affine__spec(g, xs, ys, alts):
    """lon/lat = geotransform applied to pixel; pixel = its inverse applied to lon/lat; altitude ignored"""
    i = gdal.InvGeoTransform(g)
    return ((g[0] + g[1] * xs + g[2] * ys, g[3] + g[4] * xs + g[5] * ys), (i[0] + i[1] * xs + i[2] * ys, i[3] + i[4] * xs + i[5] * ys), g, i)


def extent__code(g: Vec(6), nx: Scalar, ny: Scalar):
    c = GeotiffPointCalc()
    c.set_geot(g)
    c.set_npix_x(nx)
    c.set_npix_y(ny)
    return c.get_world_extent_native()


def extent__spec(g, nx, ny):
    """outer pixel corners (0,0) and (npix_x, npix_y)"""
    return box(g[0], g[3] + g[4] * nx + g[5] * ny, g[0] + g[1] * nx + g[2] * ny, g[3])


def from_file__code(fname: Str, xs: Arr(1), ys: Arr(1)):
    c = GeotiffPointCalc.init_from_file(fname)
    return c._pixel_x_y_alt_to_lon_lat_native(xs, ys), c._lon_lat_alt_to_pixel_x_y_native(xs, ys), c.get_projection(), c.get_world_extent_native(), c.bands_coregistered()


def from_file__spec(fname, xs, ys):
    """geotransform, size and projection are those of the file"""
    d = gdal.Open(fname)
    g = np.array(d.GetGeoTransform())
    i = gdal.InvGeoTransform(g)
    nx, ny = d.RasterXSize, d.RasterYSize
    srs = osr.SpatialReference()
    srs.ImportFromWkt(d.GetProjection())
    return ((g[0] + g[1] * xs + g[2] * ys, g[3] + g[4] * xs + g[5] * ys), (i[0] + i[1] * xs + i[2] * ys, i[3] + i[4] * xs + i[5] * ys),
            Proj(srs.ExportToProj4(), preserve_units=True),
            box(g[0], g[3] + g[4] * nx + g[5] * ny, g[0] + g[1] * nx + g[2] * ny, g[3]), True)


def wkt__code(proj: Val):
    c = GeotiffPointCalc()
    c.set_projection(proj)
    return c.get_gdal_projection_wkt(), c.get_projection()


def wkt__spec(proj):
    """the WKT is that of the calculator's own projection"""
    s = osr.SpatialReference()
    s.ImportFromProj4(proj.srs)
    return s.ExportToWkt(), proj


INCLUDE = ['P41.geot']
