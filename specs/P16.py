"""GeoTIFF images on disk and in memory."""
import os
import uuid
import gdal
import osr
import numpy as np
from osgeo import gdal_array
from pyproj import Proj
from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffImage
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
from resippy.image_objects.image_factory import ImageFactory


def read__code(fname: Str, k: Scalar):
    im = GeotiffImageFactory.from_file(fname)
    m = im.get_metadata()
    return (im.read_all_image_data_from_disk(), im.read_band_from_disk(k), m.get_npix_x(), m.get_npix_y(), m.get_n_bands(), m.get_gdal_datatype(),
            m.get_nodata_val(), m.get_image_name(), im.get_point_calculator().get_geot())


def read__spec(fname, k):
    """bands of the file in order as (rows, columns, bands); band k is the file's band k+1; size, data type, nodata and geotransform are the file's own"""
    d = gdal.Open(fname, gdal.GA_ReadOnly)
    f = gdal.Open(fname)
    planes = []
    for b in range(f.RasterCount):
        planes.append(d.GetRasterBand(b + 1).ReadAsArray())
    return (np.stack(planes, axis=2), d.GetRasterBand(k + 1).ReadAsArray(), f.RasterXSize, f.RasterYSize, f.RasterCount, f.GetRasterBand(1).DataType,
            f.GetRasterBand(1).GetNoDataValue(), os.path.splitext(fname)[0], np.array(f.GetGeoTransform()))


def from_cube__code(data: Arr(3), geot: Any, proj: Val, nodata: Opt, k: Scalar):
    im = GeotiffImageFactory.from_numpy_array(data, geot, proj, nodata)
    m = im.get_metadata()
    pc = im.get_point_calculator()
    return (im.get_image_data(), im.get_image_band(k), m.get_npix_x(), m.get_npix_y(), m.get_n_bands(), m.get_gdal_datatype(), m.get_nodata_val(), pc.get_geot(),
            pc.get_projection())


def from_cube__spec(data, geot, proj, nodata, k):
    """size, band count and data type are the array's; everything else is what was passed"""
    return (data, data[:, :, k], data.shape[1], data.shape[0], data.shape[2], gdal_array.NumericTypeCodeToGDALTypeCode(data.dtype), nodata, geot, proj)


def from_plane__code(data: Arr(2), geot: Any, proj: Val):
    im = ImageFactory.geotiff.from_numpy_array(data, geot, proj)
    m = im.get_metadata()
    return im.get_image_data(), im.get_image_band(0), m.get_npix_x(), m.get_npix_y(), m.get_n_bands(), m.get_nodata_val()


def from_plane__spec(data, geot, proj):
    """a plane is an image of one band"""
    return np.reshape(data, (data.shape[0], data.shape[1], 1)), data, data.shape[1], data.shape[0], 1, None


def _fill(ds, geot, wkt, planes, nodata):
    ds.SetGeoTransform(geot)
    ds.SetProjection(wkt)


def _wkt(proj):
    s = osr.SpatialReference()
    s.ImportFromProj4(proj.srs)
    return s.ExportToWkt()


def write__code(data: Arr(3), geot: Any, proj: Val, nodata: Opt, fname: Str, comp: Str):
    im = GeotiffImageFactory.from_numpy_array(data, geot, proj, nodata)
    im.write_to_disk(fname, compression=comp)


def write__spec(data, geot, proj, nodata, fname, comp):
    """the file has the array's size, bands, order and type, the geotransform, projection and nodata value, and the requested lossless compression"""
    ds = gdal.GetDriverByName('GTiff').Create(fname, data.shape[1], data.shape[0], data.shape[2], gdal_array.NumericTypeCodeToGDALTypeCode(data.dtype),
                                              ['COMPRESS=' + comp, 'INTERLEAVE=BAND', 'TILED=YES'])
    ds.SetGeoTransform(geot)
    ds.SetProjection(_wkt(proj))
    for b in range(data.shape[2]):
        ds.GetRasterBand(b + 1).WriteArray(data[:, :, b])
        if nodata is not None:
            ds.GetRasterBand(b + 1).SetNoDataValue(float(nodata))
    ds.FlushCache()


def write_keeps__code(data: Arr(3), geot: Any, proj: Val, nodata: Opt, fname: Str):
    im = GeotiffImageFactory.from_numpy_array(data, geot, proj, nodata)
    im.write_to_disk(fname)
    f = im.get_metadata()
    return im.get_dset(), im.get_image_data(), im.get_point_calculator().get_geot(), f.get_npix_x(), f.get_npix_y(), f.get_n_bands(), f.get_nodata_val()


def write_keeps__spec(data, geot, proj, nodata, fname):
    """writing an image leaves the image as it was"""
    im = GeotiffImageFactory.from_numpy_array(data, geot, proj, nodata)
    im.write_to_disk(fname)
    return None, data, geot, data.shape[1], data.shape[0], data.shape[2], nodata


def write_default__code(data: Arr(3), geot: Any, proj: Val, fname: Str):
    GeotiffImageFactory.from_numpy_array(data, geot, proj).write_to_disk(fname)


def write_default__spec(data, geot, proj, fname):
    """LZW unless told otherwise; no nodata value is invented"""
    ds = gdal.GetDriverByName('GTiff').Create(fname, data.shape[1], data.shape[0], data.shape[2], gdal_array.NumericTypeCodeToGDALTypeCode(data.dtype),
                                              ['COMPRESS=LZW', 'INTERLEAVE=BAND', 'TILED=YES'])
    ds.SetGeoTransform(geot)
    ds.SetProjection(_wkt(proj))
    for b in range(data.shape[2]):
        ds.GetRasterBand(b + 1).WriteArray(data[:, :, b])
    ds.FlushCache()


def mem__code(data: Arr(3), geot: Any, proj: Val, nodata: Opt):
    return GeotiffImageFactory.from_numpy_array(data, geot, proj, nodata).get_gdal_mem_datset()


def mem__spec(data, geot, proj, nodata):
    """the in-memory dataset is the same image"""
    ds = gdal.GetDriverByName('MEM').Create('', data.shape[1], data.shape[0], data.shape[2], gdal_array.NumericTypeCodeToGDALTypeCode(data.dtype))
    ds.SetGeoTransform(geot)
    ds.SetProjection(_wkt(proj))
    for b in range(data.shape[2]):
        ds.GetRasterBand(b + 1).WriteArray(data[:, :, b])
        if nodata is not None:
            ds.GetRasterBand(b + 1).SetNoDataValue(float(nodata))
    return ds


def rewrite__code(fname: Str, out: Str):
    GeotiffImageFactory.from_file(fname).write_to_disk(out)


def rewrite__spec(fname, out):
    """writing an image that was opened from disk writes the data it has on disk"""
    im = GeotiffImageFactory.from_file(fname)
    f = im.get_metadata()
    data = im.read_all_image_data_from_disk()
    ds = gdal.GetDriverByName('GTiff').Create(out, f.get_npix_x(), f.get_npix_y(), f.get_n_bands(), f.get_gdal_datatype(),
                                              ['COMPRESS=LZW', 'INTERLEAVE=BAND', 'TILED=YES'])
    ds.SetGeoTransform(im.get_point_calculator().get_geot())
    ds.SetProjection(im.get_point_calculator().get_gdal_projection_wkt())
    for b in range(f.get_n_bands()):
        ds.GetRasterBand(b + 1).WriteArray(data[:, :, b])
        if f.get_nodata_val() is not None:
            ds.GetRasterBand(b + 1).SetNoDataValue(float(f.get_nodata_val()))
    ds.FlushCache()


def _source(im):
    src = im.get_dset()
    if src is None:
        src = im.get_gdal_mem_datset()
    return src


def warp__code(fname: Str, ops: Val, dst: Str):
    im = GeotiffImageFactory.from_file(fname)
    a = GeotiffImage.gdalwarp_geotiff_image(im, ops, dst)
    return a.get_metadata().get_npix_x(), a.get_point_calculator().get_geot()


def warp__spec(fname, ops, dst):
    """the warp has the options it was given, goes to the destination it was given, and is read back from there"""
    im = GeotiffImageFactory.from_file(fname)
    gdal.Warp(dst, _source(im), options=ops)
    a = GeotiffImageFactory.from_file(dst)
    return a.get_metadata().get_npix_x(), a.get_point_calculator().get_geot()


def warped__code(fname: Str, ops: Val, dst: Str):
    m = GeotiffImage.gdalwarp_geotiff_image(GeotiffImageFactory.from_file(fname), ops, dst).get_metadata()
    return m.get_npix_y(), m.get_n_bands(), m.get_nodata_val(), m.get_gdal_datatype()


def warped__spec(fname, ops, dst):
    """the warped image's size, bands, nodata value and number type are those of the file the warp wrote, not the source's"""
    gdal.Warp(dst, _source(GeotiffImageFactory.from_file(fname)), options=ops)
    m = GeotiffImageFactory.from_file(dst).get_metadata()
    return m.get_npix_y(), m.get_n_bands(), m.get_nodata_val(), m.get_gdal_datatype()


def warp_mem__code(data: Arr(3), geot: Any, proj: Val, ops: Val):
    im = GeotiffImageFactory.from_numpy_array(data, geot, proj)
    return GeotiffImage.gdalwarp_geotiff_image(im, ops).get_dset()


def warp_mem__spec(data, geot, proj, ops):
    """an in-memory image is warped from its in-memory dataset to a fresh in-memory file"""
    src = GeotiffImageFactory.from_numpy_array(data, geot, proj).get_gdal_mem_datset()
    dst = '/vsimem/' + uuid.uuid4().hex + '.tif'
    gdal.Warp(dst, src, options=ops)
    return gdal.Open(dst, gdal.GA_ReadOnly)


def vertical__code(fname: Str, dst: Str, code: Str):
    im = GeotiffImageFactory.from_file(fname)
    return GeotiffImage.reproject_vertical_datum(im, dst, code).get_dset()


def vertical__spec(fname, dst, code):
    """the horizontal system is the image's own, the vertical one the requested"""
    im = GeotiffImageFactory.from_file(fname)
    s = osr.SpatialReference()
    s.ImportFromProj4(im.get_point_calculator().get_projection().srs)
    s.AutoIdentifyEPSG()
    gdal.Warp(dst, _source(im), options=gdal.WarpOptions(dstSRS='EPSG:' + str(s.GetAuthorityCode(None)) + '+' + str(code)))
    return gdal.Open(dst, gdal.GA_ReadOnly)


def tiles__code(data: Arr(3), geot: Any, proj: Val, out: Str):
    GeotiffImageFactory.from_numpy_array(data, geot, proj).create_map_tiles(out)


def tiles__spec(data, geot, proj, out):
    """map tiles are made from the image warped to web mercator, into the requested directory"""
    import gdal2tiles
    src = GeotiffImageFactory.from_numpy_array(data, geot, proj).get_gdal_mem_datset()
    gdal.Warp('/vsimem/tmp_gdalwarp_geotiff.tif', src, options=gdal.WarpOptions(dstSRS='EPSG:3857'))
    gdal2tiles.generate_tiles('/vsimem/tmp_gdalwarp_geotiff.tif', out)


def closed_mem__code(data: Arr(3), geot: Any, proj: Val):
    im = GeotiffImageFactory.from_numpy_array(data, geot, proj)
    im.close_image()
    return im.get_dset(), im.get_image_data()


def closed_mem__spec(data, geot, proj):
    """an image made in memory keeps its pixels when closed"""
    return None, data


def closed__code(fname: Str):
    im = GeotiffImageFactory.from_file(fname)
    d = im.get_dset()
    im.close_image()
    return d, im.get_dset()


def closed__spec(fname):
    """closing drops the dataset"""
    return gdal.Open(fname, gdal.GA_ReadOnly), None


_E = 0
OPTS = {
    'read': {'dtypes': True},
    'from_cube': {'dtypes': True},
    'from_plane': {'dtypes': True},
    'write': {'effects': r'WriteArray|Create|SetGeoT|SetProj|SetNoData|FlushCache'},
    'write_default': {'effects': r'WriteArray|Create|SetGeoT|SetProj|SetNoData|FlushCache'},
    'mem': {'effects': r'WriteArray|Create|SetGeoT|SetProj|SetNoData'},
    'rewrite': {'effects': r'WriteArray|Create|SetGeoT|SetProj|SetNoData|FlushCache'},
    'warp': {'effects': r'Warp$'},
    'warp_mem': {'effects': r'Warp$|WriteArray'},
    'vertical': {'effects': r'Warp$'},
    'tiles': {'effects': r'Warp$|generate_tiles|WriteArray'},
}


INCLUDE = ['P41.exported', 'P10.from_file', 'P39.camera_file']
