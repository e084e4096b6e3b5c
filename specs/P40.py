"""Map projections and terrain height references."""
import gdal
import osr
import pyproj
import shapely.ops
import utm
from pyproj import Proj
import resippy.photogrammetry.crs_defs as crs_defs
from resippy.image_objects.earth_overhead.geotiff.geotiff_image import GeotiffImage
from resippy.photogrammetry.dem.geotiff_dem import GeotiffDem
from resippy.photogrammetry.dem.constant_elevation_dem import ConstantElevationDem
from resippy.utils import photogrammetry_utils, proj_utils

OPTS = {
    'ellipsoid': {'effects': r'Warp$'},
    'geoid': {'effects': r'Warp$'},
    'reference': {'effects': r'Warp$'},
}


def _source(im):
    src = im.get_dset()
    if src is None:
        src = im.get_gdal_mem_datset()
    return src


def ellipsoid__code(fname: Str, dst: Str, grid: Str):
    im = GeotiffImage.init_from_file(fname)
    d = GeotiffDem()
    d.set_geotiff_image(im)
    d.convert_to_ellipsoid_heights(dst, grid)
    return im.get_dset(), d.gtiff.get_dset(), d.gtiff.get_metadata().get_npix_x()


def ellipsoid__spec(fname, dst, grid):
    """geoid heights become ellipsoid heights by warping from the terrain's own system with the geoid grid to its own system; the terrain is then the file written"""
    im = GeotiffImage.init_from_file(fname)
    own = im.get_point_calculator().get_projection().srs
    gdal.Warp(dst, _source(im), options=gdal.WarpOptions(srcSRS=own + ' +geoidgrids=' + grid, dstSRS=own))
    new = GeotiffImage.init_from_file(dst)
    return None, new.get_dset(), new.get_metadata().get_npix_x()


def geoid__code(fname: Str, dst: Str, grid: Str):
    im = GeotiffImage.init_from_file(fname)
    d = GeotiffDem()
    d.set_geotiff_image(im)
    d.convert_to_geoid_heights(dst, grid)
    return im.get_dset(), d.gtiff.get_dset(), d.gtiff.get_metadata().get_npix_x()


def geoid__spec(fname, dst, grid):
    """ellipsoid heights become geoid heights by warping from the terrain's own system to its own system with the geoid grid"""
    im = GeotiffImage.init_from_file(fname)
    own = im.get_point_calculator().get_projection().srs
    gdal.Warp(dst, _source(im), options=gdal.WarpOptions(srcSRS=own, dstSRS=own + ' +geoidgrids=' + grid))
    new = GeotiffImage.init_from_file(dst)
    return None, new.get_dset(), new.get_metadata().get_npix_x()


def reference__code(fname: Str, dst: Str, code: Val):
    im = GeotiffImage.init_from_file(fname)
    d = GeotiffDem()
    d.set_geotiff_image(im)
    d.convert_reference(dst, code)
    return im.get_dset(), d.gtiff.get_dset()


def reference__spec(fname, dst, code):
    """a conversion to another vertical reference warps to the terrain's own horizontal system with the requested vertical one"""
    im = GeotiffImage.init_from_file(fname)
    s = osr.SpatialReference()
    s.ImportFromProj4(im.get_point_calculator().get_projection().srs)
    s.AutoIdentifyEPSG()
    gdal.Warp(dst, _source(im), options=gdal.WarpOptions(dstSRS='EPSG:' + str(s.GetAuthorityCode(None)) + '+' + str(code)))
    return None, gdal.Open(dst, gdal.GA_ReadOnly)


def named__code(h: Scalar, code: Val, proj: Val):
    d = ConstantElevationDem(h)
    e = GeotiffDem()
    a = d.get_reference(), e.get_reference(), d.get_projection()
    d.set_reference(code)
    d.set_projection(proj)
    return a, d.get_reference(), e.get_reference(), d.get_projection(), e.get_projection(), d.get_highest_alt(), d.get_lowest_alt(), d.get_mean_alt()


def named__spec(h, code, proj):
    """the reference and the projection set on a terrain are the ones returned, and no other terrain's"""
    return (None, None, None), code, None, proj, None, h, h, h


def shift__code(e: Scalar, n: Scalar, proj: Val, x: Arr(1), y: Arr(1)):
    return photogrammetry_utils.shift_points_by_meters(e, n, proj, x, y)


def shift__spec(e, n, proj, x, y):
    """points are moved by the given distances in web mercator and returned in their own projection"""
    mx, my = pyproj.transform(proj, crs_defs.PROJ_3857, x, y)
    return pyproj.transform(crs_defs.PROJ_3857, proj, mx + e, my + n)


def count__code(poly: Val, gx: Scalar, gy: Scalar):
    return photogrammetry_utils.get_nx_ny_pixels_in_extent(poly, gx, gy)


def count__spec(poly, gx, gy):
    """as many whole pixels as fit into the width and the height of the extent"""
    xy = poly.exterior.coords.xy
    return int((max(xy[0]) - min(xy[0])) / gx), int((max(xy[1]) - min(xy[1])) / gy)


def count__spec2(poly, gx, gy):
    l, b, r, t = poly.bounds
    return int((r - l) / gx), int((t - b) / gy)


def wkt__code(w: Str):
    return proj_utils.wkt_to_proj_string(w), proj_utils.wkt_to_proj(w), proj_utils.wkt_to_osr_spatialref(w)


def wkt__spec(w):
    """well-known text becomes the same reference system as a proj string, a projection and a spatial reference"""
    s = osr.SpatialReference()
    s.ImportFromWkt(w)
    return s.ExportToProj4(), Proj(s.ExportToProj4()), s


def utm__code(lon: Scalar, lat: Scalar):
    return proj_utils.decimal_degrees_to_local_utm_proj(lon, lat)


def utm__spec(lon, lat):
    """the UTM zone of the place, on its own side of the equator"""
    z = utm.from_latlon(lat, lon)
    return Proj(proj='utm', ellps='WGS84', zone=z[2], south=z[3] < 'N')


def utm__spec2(lon, lat):
    z = utm.from_latlon(lat, lon)
    return Proj(proj='utm', ellps='WGS84', zone=z[2], south=(str(z[2]) + z[3])[-1] < 'N')


def geometry__code(geom: Val, a: Val, b: Val):
    return photogrammetry_utils.reproject_geometry(geom, a, b)


def geometry__spec(geom, a, b):
    """every vertex of the geometry is taken from the first projection to the second, x and y in their own places"""
    return shapely.ops.transform(lambda x, y: pyproj.transform(a, b, x, y), geom)


INCLUDE = ['P41.reloaded', 'P15.nodata', 'P15.kept', 'P16.warp', 'P16.warp_mem', 'P16.vertical', 'P16.mem']
