"""Image objects: planes, metadata and geometry, from memory and from disk."""
import os
import gdal
import numpy as np
from resippy.image_objects.image_factory import ImageFactory
from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffImage
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
from resippy.image_objects.earth_overhead.geotiff.geotiff_metadata import GeotiffMetadata
from resippy.image_objects.earth_overhead.digital_globe.view_ready_stereo.view_ready_stereo_image import ViewReadyStereoImage
from resippy.image_objects.earth_overhead.digital_globe.view_ready_stereo.view_ready_stereo_image_factory import ViewReadyStereoImageFactory
from resippy.image_objects.earth_overhead.digital_globe.view_ready_stereo.view_ready_stereo_point_calc import ViewReadyStereoPointCalc
from resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc import RPCPointCalc
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_image import PhysicalCameraImage
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_image_factory import PhysicalCameraImageFactory
from resippy.image_objects.earth_overhead.physical_camera.physical_camera_metadata import PhysicalCameraMetadata
from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage
from resippy.image_objects.envi.envi_image import EnviImage

OPTS = {
    'igm_flat': {'dtypes': True},
    'stereo_model': {'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.rpc_point_calc.RPCPointCalc.init_from_file']},
}


def _bands(d, n):
    planes = []
    for b in range(n):
        planes.append(d.GetRasterBand(b + 1).ReadAsArray())
    return np.stack(planes, axis=2)


def _meta(fname):
    f = gdal.Open(fname)
    return (f.RasterXSize, f.RasterYSize, f.RasterCount, f.GetRasterBand(1).DataType, f.GetRasterBand(1).GetNoDataValue(), os.path.splitext(fname)[0])


def stereo__code(fname: Str, k: Scalar):
    im = ViewReadyStereoImageFactory.from_file(fname)
    m = im.get_metadata()
    return (im.get_image_data(), im.read_all_image_data_from_disk(), im.read_band_from_disk(k), im.get_dset(),
            (m.get_npix_x(), m.get_npix_y(), m.get_n_bands(), m.get_gdal_datatype(), m.get_nodata_val(), m.get_image_name()))


def stereo__spec(fname, k):
    """a view-ready stereo image reads the file's bands in order, band k is the file's band k + 1, and the metadata are the file's"""
    d = gdal.Open(fname, gdal.GA_ReadOnly)
    return None, _bands(d, gdal.Open(fname).RasterCount), d.GetRasterBand(k + 1).ReadAsArray(), d, _meta(fname)


def stereo_model__code(fname: Str):
    im = ViewReadyStereoImageFactory.from_file(fname)
    return im.get_point_calculator(), im.pointcalc


def stereo_model__spec(fname):
    """its sensor model is the file's own rational polynomial"""
    pc = ViewReadyStereoPointCalc.init_from_file(fname)
    return pc, pc


def camera_file__code(fname: Str, pc: Val, k: Scalar):
    im = PhysicalCameraImageFactory.from_gdal_file_and_single_point_calc(fname, pc)
    m = im.get_metadata()
    a = (im.get_image_data(), im.read_all_image_data_from_disk(), im.read_band_from_disk(k), im.get_gdal_dset(), im.get_point_calculator(),
         (m.get_npix_x(), m.get_npix_y(), m.get_n_bands(), m.get_gdal_datatype(), m.get_nodata_val(), m.get_image_name()))
    im.close_gdal_image()
    return a, im.get_gdal_dset()


def camera_file__spec(fname, pc, k):
    """an image of a physical camera opened from a file reads the file's bands in order and keeps the sensor model it was given; closing drops the dataset"""
    d = gdal.Open(fname, gdal.GA_ReadOnly)
    return (None, _bands(d, gdal.Open(fname).RasterCount), d.GetRasterBand(k + 1).ReadAsArray(), d, pc, _meta(fname)), None


def camera_array__code(x: Arr(3), md: Val, pc: Val, k: Scalar):
    im = PhysicalCameraImageFactory.from_numpy_array_metadata_and_single_point_calc(x, md, pc)
    return im.get_image_data(), im.get_image_band(k), im.read_band_from_disk(k), im.get_metadata(), im.get_point_calculator(), im.metadata, im.pointcalc


def camera_array__spec(x, md, pc, k):
    """an image of a physical camera made from an array holds the array, its metadata and its sensor model; its bands come from memory"""
    return x, x[:, :, k], x[:, :, k], md, pc, md, pc


def camera_type__code(t: Val):
    m = PhysicalCameraMetadata()
    m.set_gdal_datatype(t)
    return m.get_gdal_datatype()


def camera_type__spec(t):
    """the data type set is the data type returned"""
    return t


def igm__code(x: Arr(3), lons: Arr(2), lats: Arr(2), alts: Arr(2), n: Scalar, proj: Val, k: Scalar, px: Arr(1), py: Arr(1)):
    im = IgmImage.from_params(x, lons, lats, alts, n, proj)
    m = im.get_metadata()
    return (im.get_image_data(), im.get_image_band(k), m.get_npix_x(), m.get_npix_y(), m.get_n_bands(), im.get_point_calculator().get_projection(),
            im.get_point_calculator()._pixel_x_y_alt_to_lon_lat_native(px, py), im.point_calc.lon_image, im.point_calc.lat_image, im.point_calc.alt_image)


def igm__spec(x, lons, lats, alts, n, proj, k, px, py):
    """an image with an input geometry map holds the array and the map; its size is the map's"""
    return x, x[:, :, k], lons.shape[1], lons.shape[0], n, proj, (lons[py, px], lats[py, px]), lons, lats, alts


def igm_flat__code(x: Arr(3), lons: Arr(2), lats: Arr(2), h: Scalar, n: Scalar, proj: Val):
    return IgmImage.from_params(x, lons, lats, h, n, proj).point_calc.alt_image


def igm_flat__spec(x, lons, lats, h, n, proj):
    """one altitude given for the whole map stands at every pixel"""
    return np.full(lons.shape, float(h))


def envi__code(fname: Str, hdr: Str, k: Scalar):
    im = ImageFactory.envi.from_file(fname, hdr)
    return im.read_all_image_data_from_disk(), im.read_band_from_disk(k)


def envi__spec(fname, hdr, k):
    """an ENVI image reads the bands its header announces, in order; band k is the file's band k + 1"""
    im = EnviImage.init_from_file(fname, hdr)
    d = gdal.Open(fname, gdal.GA_ReadOnly)
    return _bands(d, im.get_metadata().get_n_bands()), d.GetRasterBand(k + 1).ReadAsArray()


def bands__code(x: Arr(3), geot: Any, proj: Val, k: Scalar, b: Arr(2), j: Scalar):
    im = GeotiffImageFactory.from_numpy_array(np.array(x), geot, proj)
    im.set_image_band(b, k)
    return im.get_image_data(), im.get_image_band(j)


def bands__spec(x, geot, proj, k, b, j):
    """setting a band replaces that band and no other"""
    y = np.array(x)
    y[:, :, k] = b
    return y, y[:, :, j]


def empty__code(fname: Str, k: Scalar):
    im = GeotiffImageFactory.from_file(fname)
    a = im.get_image_data(), im.get_image_band(k)
    im.set_image_data(im.read_all_image_data_from_disk())
    return a, im.get_image_data()


def empty__spec(fname, k):
    """no pixels are held before they are read; the pixels set are the pixels returned"""
    return (None, None), GeotiffImageFactory.from_file(fname).read_all_image_data_from_disk()


def metadata__code(a: Val, b: Val, c: Val, d: Val, e: Val, f: Val):
    m = GeotiffMetadata()
    z = m.get_nodata_val()
    m.set_image_name(a)
    m.set_npix_x(b)
    m.set_npix_y(c)
    m.set_n_bands(d)
    m.set_nodata_val(e)
    m.set_gdal_datatype(f)
    n = GeotiffMetadata()
    first = z, m.get_image_name(), m.get_npix_x(), m.get_npix_y(), m.get_n_bands(), m.get_nodata_val(), m.get_gdal_datatype(), n.get_nodata_val()
    m.set_image_name(f)
    m.set_npix_x(a)
    m.set_npix_y(b)
    m.set_n_bands(c)
    m.set_nodata_val(d)
    m.set_gdal_datatype(e)
    return first, m.get_image_name(), m.get_npix_x(), m.get_npix_y(), m.get_n_bands(), m.get_nodata_val(), m.get_gdal_datatype()


def metadata__spec(a, b, c, d, e, f):
    """every field set is the field returned, the last value set; a new object has no nodata value, whatever other objects hold"""
    return (None, a, b, c, d, e, f, None), f, a, b, c, d, e


def swap__code(fname: Str, md: Val, pc: Val):
    im = GeotiffImageFactory.from_file(fname)
    im.metadata = md
    im.pointcalc = pc
    a = im.get_metadata(), im.get_point_calculator()
    im.set_metadata(pc)
    im.set_point_calculator(md)
    return a, im.metadata, im.pointcalc


def swap__spec(fname, md, pc):
    """metadata and sensor model can be replaced, by property or by setter"""
    return (md, pc), pc, md


def swapped_in__code(fname: Str, a: Scalar, n: Scalar):
    im = GeotiffImageFactory.from_file(fname)
    md = GeotiffMetadata()
    md.set_nodata_val(a)
    md.set_n_bands(n)
    im.metadata = md
    r = im.get_metadata().get_nodata_val(), im.metadata.get_n_bands()
    im.set_metadata(md)
    return r, md.get_nodata_val(), md.get_n_bands()


def swapped_in__spec(fname, a, n):
    """metadata put into an image stay what they are"""
    return (a, n), a, n


INCLUDE = ['P41.planes', 'P41.exported', 'P02.from_file', 'P10.from_file', 'P11.lookup', 'P16.read', 'P16.from_cube', 'P16.from_plane', 'P17.image', 'P17.image_guess', 'P17.parse',
           'P37.forward']
