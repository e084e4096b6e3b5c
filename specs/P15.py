"""terrain models."""
import numpy as np
from resippy.photogrammetry.dem.geotiff_dem import GeotiffDem
from resippy.photogrammetry.dem.dem_factory import DemFactory
from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffImage


def _dem(gt, method):
    d = GeotiffDem()
    d.set_geotiff_image(gt)
    if method == 'nearest':
        d.set_interpolation_to_nearest()
    else:
        d.set_interpolation_to_bilinear()
    return d


def nearest__code(gt: Obj('resippy.image_objects.earth_overhead.geotiff.geotiff_image.GeotiffImage'), x: Arr(1), y: Arr(1), proj: Any):
    return _dem(gt, 'nearest').get_elevations(x, y, world_proj=proj)


def nearest__spec(gt, x, y, proj):
    """the elevation of the pixel that contains the point (given in the caller's projection), row then column, clamped to the raster"""
    px, py = gt.get_point_calculator().lon_lat_alt_to_pixel_x_y(x, y, alts=None, world_proj=proj)
    z = np.squeeze(gt.read_all_image_data_from_disk())
    m = gt.get_metadata()
    c = np.clip(px.astype(int), 0, m.get_npix_x() - 1)
    r = np.clip(py.astype(int), 0, m.get_npix_y() - 1)
    return np.squeeze(z[r, c])


def bilinear__code(gt: Obj('resippy.image_objects.earth_overhead.geotiff.geotiff_image.GeotiffImage'), x: Arr(1), y: Arr(1), proj: Any):
    return _dem(gt, 'bilinear').get_elevations(x, y, world_proj=proj)


def _bilinear(gt, x, y, proj, weight):
    px, py = gt.get_point_calculator().lon_lat_alt_to_pixel_x_y(x, y, alts=None, world_proj=proj)
    z = np.squeeze(gt.read_all_image_data_from_disk())
    m = gt.get_metadata()
    nx, ny = m.get_npix_x(), m.get_npix_y()
    c0, c1 = np.clip(px.astype(int), 0, nx - 1), np.clip(np.ceil(px).astype(int), 0, nx - 1)
    r0, r1 = np.clip(py.astype(int), 0, ny - 1), np.clip(np.ceil(py).astype(int), 0, ny - 1)
    wx = weight(px, c0)
    wy = weight(py, r0)
    return np.squeeze(z[r0, c0] * (1 - wx) * (1 - wy) + z[r0, c1] * wx * (1 - wy) + z[r1, c0] * (1 - wx) * wy + z[r1, c1] * wx * wy)


def bilinear__spec(gt, x, y, proj):
    """bilinear mean of the four pixels around the point, nearer pixels weighing more"""
    return _bilinear(gt, x, y, proj, lambda p, p0: p - p0)


def bilinear__spec2(gt, x, y, proj):
    # beyond the edge both neighbours are the edge pixel, and the weights do not matter
    return _bilinear(gt, x, y, proj, lambda p, p0: p - np.floor(p))


def bilinear__spec3(gt, x, y, proj):
    return _bilinear(gt, x, y, proj, lambda p, p0: p - p.astype(int))


def bilinear__spec4(gt, x, y, proj):
    return _bilinear(gt, x, y, proj, lambda p, p0: p % 1)


def grid__code(gt: Obj('resippy.image_objects.earth_overhead.geotiff.geotiff_image.GeotiffImage'), x: Arr(2), y: Arr(2), proj: Any):
    return _dem(gt, 'nearest').get_elevations(x, y, world_proj=proj)


def grid__spec(gt, x, y, proj):
    """a grid of points comes back as a grid of the same shape, row-major"""
    px, py = gt.get_point_calculator().lon_lat_alt_to_pixel_x_y(x, y, alts=None, world_proj=proj)
    ny, nx = x.shape
    px = np.reshape(px, nx * ny)
    py = np.reshape(py, nx * ny)
    z = np.squeeze(gt.read_all_image_data_from_disk())
    m = gt.get_metadata()
    c = np.clip(px.astype(int), 0, m.get_npix_x() - 1)
    r = np.clip(py.astype(int), 0, m.get_npix_y() - 1)
    return np.reshape(z[r, c], (ny, nx))


def nodata__code(gt: Obj('resippy.image_objects.earth_overhead.geotiff.geotiff_image.GeotiffImage'), nodata: Scalar):
    d = GeotiffDem()
    d.set_geotiff_image(gt)
    d.remove_nodata_values(nodata)
    return d.dem_data, d.get_highest_alt(), d.get_lowest_alt(), d.get_mean_alt(), d.get_projection()


def nodata__spec(gt, nodata):
    """nodata samples become NaN in place of the marker and do not count in the altitude statistics"""
    z = np.squeeze(gt.read_all_image_data_from_disk())
    if not np.issubdtype(z.dtype, np.floating):
        z = z.astype(float)
    z[z == nodata] = np.nan
    return z, float(np.nanmax(z)), float(np.nanmin(z)), float(np.nanmean(z)), gt.get_point_calculator().get_projection()


def kept__code(gt: Obj('resippy.image_objects.earth_overhead.geotiff.geotiff_image.GeotiffImage'), nodata: Scalar):
    d = GeotiffDem()
    d.remove_nodata_values(nodata)
    d.set_geotiff_image(gt)
    return d.dem_data


def kept__spec(gt, nodata):
    """replacing the raster keeps masking the nodata value"""
    return nodata__spec(gt, nodata)[0]


def factory__code(fname: Str, nodata: Opt):
    a = DemFactory.from_gtiff_file(fname, nodata_value=nodata)
    b = DemFactory.from_gtiff_file(fname, nodata_value=nodata, interpolation_method='nearest')
    return a.get_interpolation_method(), b.get_interpolation_method(), a.nodata_value, b.nodata_value, a.dem_data


def factory__spec(fname, nodata):
    """the file's own nodata value unless one is given; bilinear unless nearest is asked for"""
    from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
    gt = GeotiffImageFactory.from_file(fname)
    nd = gt.get_metadata().get_nodata_val() if nodata is None else nodata
    d = GeotiffDem()
    d.set_geotiff_image(gt)
    d.remove_nodata_values(nd)
    return 'bilinear', 'nearest', nd, nd, d.dem_data


def unsupported__code(fname: Str):
    return DemFactory.from_gtiff_file(fname, interpolation_method='cubic')


def unsupported__spec(fname):
    """an unsupported interpolation method is rejected"""
    raise TypeError


def constant__code(h: Scalar, x: Arr(2), y: Arr(2), x1: Arr(1)):
    d = DemFactory.constant_elevation(h)
    z = DemFactory.constant_elevation()
    return d.get_elevations(x, y), d.get_elevations(x1, x1), d.get_highest_alt(), d.get_lowest_alt(), d.get_mean_alt(), z.get_elevations(x1, x1)


def constant__spec(h, x, y, x1):
    """a flat terrain has its elevation at every point; zero by default"""
    return np.zeros(x.shape) + h, np.zeros(x1.shape) + h, h, h, h, np.zeros(x1.shape)


INCLUDE = ['P41.reloaded', 'P41.terrain', 'P41.interpolation', 'P41.flat', 'P10.affine', 'P10.from_file', 'P16.read', 'P30.dem_file', 'P30.dem_query']
