"""orthorectified outputs."""
import math
import numpy as np
from pyproj import Proj, transform
from scipy.ndimage import map_coordinates
import skimage.transform as sktransform
from shapely.geometry import MultiPoint
from shapely.ops import unary_union
from resippy.image_objects.earth_overhead.geotiff.geotiff_metadata import GeotiffMetadata
from resippy.photogrammetry import ortho_tools
from resippy.photogrammetry import crs_defs
from resippy.photogrammetry.dem.dem_factory import DemFactory
from resippy.image_objects.earth_overhead.geotiff.geotiff_image_factory import GeotiffImageFactory
from resippy.utils.image_utils import image_utils
from resippy.utils import photogrammetry_utils
from resippy.utils import proj_utils
from resippy.image_objects.earth_overhead.igm.igm_image import IgmImage


def ground_grid__code(l: Scalar, r: Scalar, b: Scalar, t: Scalar, nx: Scalar, ny: Scalar):
    return photogrammetry_utils.create_ground_grid(l, r, b, t, nx, ny)


def ground_grid__spec(l, r, b, t, nx, ny):
    """pixel positions of the output: nx by ny steps of extent/npix from the upper left corner, rows going down, at the pixel centres"""
    dx = (r - l) / nx
    dy = (t - b) / ny
    xs = l + np.arange(nx) * dx + abs(r - l) / nx / 2
    ys = t - np.arange(ny) * dy - abs(t - b) / ny / 2
    return np.meshgrid(xs, ys)


def geot__code(poly: Val, nx: Scalar, ny: Scalar):
    return photogrammetry_utils.world_poly_to_geo_t(poly, nx, ny)


def geot__spec(poly, nx, ny):
    """north-up geotransform covering exactly the polygon's bounds with nx by ny pixels"""
    minx, miny, maxx, maxy = poly.envelope.bounds
    return [minx, (maxx - minx) / nx, 0, maxy, 0, -(maxy - miny) / ny]


def _sample(data, px, py, nx, ny, npx, npy, nodata, order):
    v = map_coordinates(data, [np.reshape(py, py.shape[0] * py.shape[1]), np.reshape(px, px.shape[0] * px.shape[1])], order=order)
    v = np.reshape(v, (ny, nx)).astype(data.dtype)
    v[np.where(px <= 0)] = nodata
    v[np.where(px >= npx - 2)] = nodata
    v[np.where(py <= 0)] = nodata
    v[np.where(py >= npy - 2)] = nodata
    return v


def _ortho(image, nx, ny, poly, proj, dem, b0, b1, nodata, order):
    env = poly.envelope
    minx, miny, maxx, maxy = env.bounds
    gx, gy = photogrammetry_utils.create_ground_grid(minx, maxx, miny, maxy, nx, ny)
    alts = dem.get_elevations(gx, gy, proj)
    pc = image.get_point_calculator()
    md = image.get_metadata()
    out = []
    for b in (b0, b1):
        if pc.bands_coregistered() is not True:
            px, py = pc.lon_lat_alt_to_pixel_x_y(gx, gy, alts, band=b, world_proj=proj)
            data = image.read_band_from_disk(b)
        else:
            px, py = pc.lon_lat_alt_to_pixel_x_y(gx, gy, alts, band=0, world_proj=proj)
            data = image.get_image_band(b)
            if data is None:
                data = image.read_band_from_disk(b)
        out.append(_sample(data, px, py, nx, ny, md.get_npix_x(), md.get_npix_y(), nodata, order))
    cube = np.stack(out, axis=2)
    return cube, photogrammetry_utils.world_poly_to_geo_t(env, nx, ny)


def ortho__code(image: Obj('resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage'), nx: Scalar, ny: Scalar, poly: Val,
                proj: Val, dem: Obj('resippy.photogrammetry.dem.abstract_dem.AbstractDem'), b0: Scalar, b1: Scalar, nodata: Scalar, order: Scalar):
    g = ortho_tools.create_ortho_gtiff_image_world_to_sensor(image, nx, ny, poly, world_proj=proj, dem=dem, bands=[b0, b1], nodata_val=nodata, spline_order=order)
    return g.get_image_data(), g.get_point_calculator().get_geot(), g.get_point_calculator().get_projection(), g.get_metadata().get_nodata_val()


def ortho__spec(image, nx, ny, poly, proj, dem, b0, b1, nodata, order):
    """each requested band, in order, sampled where the ground of every output pixel falls in that band, nodata outside the source image,
    on the georeferenced grid of the requested extent and projection"""
    cube, g = _ortho(image, nx, ny, poly, proj, dem, b0, b1, nodata, order)
    return cube, g, proj, nodata



def defaults__code(image: Obj('resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage'), nx: Scalar, ny: Scalar, poly: Val, out: Str):
    g = ortho_tools.create_ortho_gtiff_image_world_to_sensor(image, nx, ny, poly, output_fname=out)
    return g.get_image_data(), g.get_point_calculator().get_geot(), g.get_point_calculator().get_projection(), g.get_metadata().get_nodata_val()


def defaults__spec(image, nx, ny, poly, out):
    """every band of the image, zero altitude, nodata 0, nearest sample, WGS84"""
    env = poly.envelope
    minx, miny, maxx, maxy = env.bounds
    gx, gy = photogrammetry_utils.create_ground_grid(minx, maxx, miny, maxy, nx, ny)
    alts = np.zeros(gx.shape)
    pc = image.get_point_calculator()
    md = image.get_metadata()
    if pc.bands_coregistered() is not True:
        layers = []
        for b in range(md.get_n_bands()):
            px, py = pc.lon_lat_alt_to_pixel_x_y(gx, gy, alts, band=b, world_proj=crs_defs.PROJ_4326)
            layers.append(_sample(image.read_band_from_disk(b), px, py, nx, ny, md.get_npix_x(), md.get_npix_y(), 0, 0))
    else:
        px, py = pc.lon_lat_alt_to_pixel_x_y(gx, gy, alts, band=0, world_proj=crs_defs.PROJ_4326)
        layers = []
        for b in range(md.get_n_bands()):
            data = image.get_image_band(b)
            if data is None:
                data = image.read_band_from_disk(b)
            layers.append(_sample(data, px, py, nx, ny, md.get_npix_x(), md.get_npix_y(), 0, 0))
    g = GeotiffImageFactory.from_numpy_array(np.stack(layers, axis=2), photogrammetry_utils.world_poly_to_geo_t(env, nx, ny), crs_defs.PROJ_4326)
    g.get_metadata().set_nodata_val(0)
    g.write_to_disk(out)
    return g.get_image_data(), g.get_point_calculator().get_geot(), crs_defs.PROJ_4326, 0


def mask__code(cube: Arr(3), nodata: Scalar):
    return ortho_tools.mask_image(cube, nodata), ortho_tools.mask_image(cube)


def mask__spec(cube, nodata):
    """one more layer: 0 where the first band is nodata (0 unless given), 255 elsewhere"""
    a = cube[:, :, 0].copy()
    b = cube[:, :, 0].copy()
    a[cube[:, :, 0] == nodata] = 0
    a[cube[:, :, 0] != nodata] = 255
    b[cube[:, :, 0] == 0] = 0
    b[cube[:, :, 0] != 0] = 255
    return np.dstack((cube, a)), np.dstack((cube, b))


def masked__code(image: Obj('resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage'), nx: Scalar, ny: Scalar, poly: Val, proj: Val, dem: Obj('resippy.photogrammetry.dem.abstract_dem.AbstractDem'), nodata: Scalar, order: Scalar):
    g = ortho_tools.create_ortho_gtiff_image_world_to_sensor(image, nx, ny, poly, world_proj=proj, dem=dem, bands=[0, 2], nodata_val=nodata, spline_order=order,
                                                             mask_no_data_region=True)
    return g.get_image_data(), g.get_metadata().get_n_bands(), g.get_metadata().get_npix_x(), g.get_metadata().get_npix_y()


def masked__spec(image, nx, ny, poly, proj, dem, nodata, order):
    """masking adds the alpha layer as the last band"""
    cube, g = _ortho(image, nx, ny, poly, proj, dem, 0, 2, nodata, order)
    a = cube[:, :, 0].copy()
    a[cube[:, :, 0] == nodata] = 0
    a[cube[:, :, 0] != nodata] = 255
    r = np.dstack((cube, a))
    return r, r.shape[2], r.shape[1], r.shape[0]


def pixel_lon_lats__code(image: Obj('resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage'), dem: Obj('resippy.photogrammetry.dem.abstract_dem.AbstractDem'), band: Any, px: Arr(1), py: Arr(1), thr: Scalar, n: Scalar):
    return ortho_tools.get_pixel_lon_lats(image, dem, band, px, py, thr, n)


def pixel_lon_lats__spec(image, dem, band, px, py, thr, n):
    """the ground positions at the terrain height found below each pixel's position at the highest altitude"""
    pc = image.get_point_calculator()
    top = dem.get_highest_alt()
    lon, lat = pc.pixel_x_y_alt_to_lon_lat(px, py, top, band=band, pixel_error_threshold=thr, max_iter=n)
    z = dem.get_elevations(lon, lat, world_proj=pc.get_projection())
    return pc.pixel_x_y_alt_to_lon_lat(px, py, z, band=band, pixel_error_threshold=thr, max_iter=n)


def all_lon_lats__code(image: Obj('resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage')):
    return ortho_tools.get_pixel_lon_lats(image)


def all_lon_lats__spec(image):
    """every pixel of the image, on zero terrain, when nothing else is asked for"""
    nx, ny = image.get_metadata().get_npix_x(), image.get_metadata().get_npix_y()
    px, py = np.meshgrid(np.arange(0, nx, 1), np.arange(0, ny, 1))
    pc = image.get_point_calculator()
    lon, lat = pc.pixel_x_y_alt_to_lon_lat(px, py, 0, band=None, pixel_error_threshold=0.01, max_iter=1000)
    return pc.pixel_x_y_alt_to_lon_lat(px, py, np.zeros(lon.shape), band=None, pixel_error_threshold=0.01, max_iter=1000)


def half_lon_lats__code(image: Obj('resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage'), px: Arr(1), py: Arr(1), dem: Obj('resippy.photogrammetry.dem.abstract_dem.AbstractDem')):
    return ortho_tools.get_pixel_lon_lats(image, dem, pixels_x=px), ortho_tools.get_pixel_lon_lats(image, dem, pixels_y=py)


def half_lon_lats__spec(image, px, py, dem):
    """columns without rows, or rows without columns, ask for every pixel of the image"""
    nx, ny = image.get_metadata().get_npix_x(), image.get_metadata().get_npix_y()
    gx, gy = np.meshgrid(np.arange(0, nx, 1), np.arange(0, ny, 1))
    pc = image.get_point_calculator()
    lon, lat = pc.pixel_x_y_alt_to_lon_lat(gx, gy, dem.get_highest_alt(), band=None, pixel_error_threshold=0.01, max_iter=1000)
    r = pc.pixel_x_y_alt_to_lon_lat(gx, gy, dem.get_elevations(lon, lat, world_proj=pc.get_projection()), band=None, pixel_error_threshold=0.01, max_iter=1000)
    return r, r


def extent__code(image: Obj('resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage'), dem: Obj('resippy.photogrammetry.dem.abstract_dem.AbstractDem'), thr: Scalar, n: Scalar):
    return ortho_tools.get_extent(image, dem, pixel_error_threshold=thr, max_iter=n)


def extent__spec(image, dem, thr, n):
    """the convex hull of the ground positions of every border pixel, over all bands unless they are co-registered"""
    pc = image.get_point_calculator()
    md = image.get_metadata()
    nx, ny = md.get_npix_x(), md.get_npix_y()
    xx, yy = np.meshgrid(np.arange(0, nx), np.arange(0, ny))
    xb = np.concatenate((xx[0, :], xx[:, -1], xx[-1, :], xx[:, 0]))
    yb = np.concatenate((yy[0, :], yy[:, -1], yy[-1, :], yy[:, 0]))
    lons = np.array([])
    lats = np.array([])
    if not pc.bands_coregistered():
        for b in np.arange(md.get_n_bands()):
            lon, lat = ortho_tools.get_pixel_lon_lats(image, pixels_x=xb, pixels_y=yb, dem=dem, pixel_error_threshold=thr, max_iter=n, band=b)
            lons = np.append(lons, lon)
            lats = np.append(lats, lat)
    else:
        lon, lat = ortho_tools.get_pixel_lon_lats(image, pixels_x=xb, pixels_y=yb, dem=dem, pixel_error_threshold=thr, max_iter=n, band=0)
        lons = np.append(lons, lon)
        lats = np.append(lats, lat)
    return unary_union([MultiPoint(list(zip(lons, lats)))]).convex_hull.simplify(0)


def extent_band__code(image: Obj('resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage'), dem: Obj('resippy.photogrammetry.dem.abstract_dem.AbstractDem')):
    return ortho_tools.get_extent(image, dem, bands=[1, 3]), ortho_tools.get_extent(image, dem, bands=2), ortho_tools.get_extent(image, dem, bands=0)


def extent_band__spec(image, dem):
    """only the requested bands count"""
    pc = image.get_point_calculator()
    md = image.get_metadata()
    nx, ny = md.get_npix_x(), md.get_npix_y()
    xx, yy = np.meshgrid(np.arange(0, nx), np.arange(0, ny))
    xb = np.concatenate((xx[0, :], xx[:, -1], xx[-1, :], xx[:, 0]))
    yb = np.concatenate((yy[0, :], yy[:, -1], yy[-1, :], yy[:, 0]))
    out = []
    for bands in ([1, 3], [2], [0]):
        lons = np.array([])
        lats = np.array([])
        if not pc.bands_coregistered():
            for b in bands:
                lon, lat = ortho_tools.get_pixel_lon_lats(image, pixels_x=xb, pixels_y=yb, dem=dem, pixel_error_threshold=0.01, max_iter=20, band=b)
                lons = np.append(lons, lon)
                lats = np.append(lats, lat)
        else:
            lon, lat = ortho_tools.get_pixel_lon_lats(image, pixels_x=xb, pixels_y=yb, dem=dem, pixel_error_threshold=0.01, max_iter=20, band=0)
            lons = np.append(lons, lon)
            lats = np.append(lats, lat)
        out.append(unary_union([MultiPoint(list(zip(lons, lats)))]).convex_hull.simplify(0))
    return out[0], out[1], out[2]


def full__code(image: Obj('resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage'), gsd: Scalar, dem: Obj('resippy.photogrammetry.dem.abstract_dem.AbstractDem'), proj: Opt, bands: Any, nodata: Scalar, order: Scalar):
    return ortho_tools.create_full_ortho_gtiff_image(image, gsd, dem, proj, bands, nodata, order)


def full__spec(image, gsd, dem, proj, bands, nodata, order):
    """the image's own extent at the requested ground sample distance measured in the local UTM zone, in the requested projection (native by default)"""
    pc = image.get_point_calculator()
    native = pc.get_projection()
    extent = ortho_tools.get_extent(image, dem, bands=bands)
    lon, lat = transform(native, crs_defs.PROJ_4326, extent.bounds[0], extent.bounds[1])
    utm = proj_utils.decimal_degrees_to_local_utm_proj(lon, lat)
    b = photogrammetry_utils.reproject_geometry(extent, native, utm).bounds
    nx = int(np.round(abs(b[2] - b[0]) / gsd))
    ny = int(np.round(abs(b[3] - b[1]) / gsd))
    if proj is None:
        return ortho_tools.create_ortho_gtiff_image_world_to_sensor(image, nx, ny, extent, world_proj=native, dem=dem, bands=bands, nodata_val=nodata, spline_order=order)
    return ortho_tools.create_ortho_gtiff_image_world_to_sensor(image, nx, ny, photogrammetry_utils.reproject_geometry(extent, native, proj), world_proj=proj, dem=dem,
                                                                bands=bands, nodata_val=nodata, spline_order=order)


def native_gsd__code(image: Obj('resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage'), dem: Obj('resippy.photogrammetry.dem.abstract_dem.AbstractDem')):
    return ortho_tools.create_full_ortho_gtiff_image(image, dem=dem)


def native_gsd__spec(image, dem):
    """by default the ground sample distance is the mean of the image's own along its two sides, in metres"""
    pc = image.get_point_calculator()
    native = pc.get_projection()
    extent = ortho_tools.get_extent(image, dem, bands=None)
    lon, lat = transform(native, crs_defs.PROJ_4326, extent.bounds[0], extent.bounds[1])
    utm = proj_utils.decimal_degrees_to_local_utm_proj(lon, lat)
    px, py = image.get_metadata().get_npix_x(), image.get_metadata().get_npix_y()
    lons, lats = ortho_tools.get_pixel_lon_lats(image, dem, 0, pixels_x=np.array([0, px - 1, 0]), pixels_y=np.array([0, 0, py - 1]))
    x, y = transform(native, utm, lons, lats)
    gsd = (math.sqrt((x[1] - x[0]) ** 2 + (y[1] - y[0]) ** 2) / px + math.sqrt((x[2] - x[0]) ** 2 + (y[2] - y[0]) ** 2) / py) / 2
    b = photogrammetry_utils.reproject_geometry(extent, native, utm).bounds
    nx = int(np.round(abs(b[2] - b[0]) / gsd))
    ny = int(np.round(abs(b[3] - b[1]) / gsd))
    return ortho_tools.create_ortho_gtiff_image_world_to_sensor(image, nx, ny, extent, world_proj=native, dem=dem, bands=None, nodata_val=0, spline_order=1)


def bands_gsd__code(image: Obj('resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage'), dem: Obj('resippy.photogrammetry.dem.abstract_dem.AbstractDem'), j: Scalar, k: Scalar):
    return ortho_tools.create_full_ortho_gtiff_image(image, dem=dem, bands=[j, k])


def bands_gsd__spec(image, dem, j, k):
    """measured in the first of the requested bands when none is given, since bands may have different sensor models: by default the ground sample distance is the mean of the image's own along its two sides, in metres"""
    pc = image.get_point_calculator()
    native = pc.get_projection()
    extent = ortho_tools.get_extent(image, dem, bands=[j, k])
    lon, lat = transform(native, crs_defs.PROJ_4326, extent.bounds[0], extent.bounds[1])
    utm = proj_utils.decimal_degrees_to_local_utm_proj(lon, lat)
    px, py = image.get_metadata().get_npix_x(), image.get_metadata().get_npix_y()
    lons, lats = ortho_tools.get_pixel_lon_lats(image, dem, j, pixels_x=np.array([0, px - 1, 0]), pixels_y=np.array([0, 0, py - 1]))
    x, y = transform(native, utm, lons, lats)
    gsd = (math.sqrt((x[1] - x[0]) ** 2 + (y[1] - y[0]) ** 2) / px + math.sqrt((x[2] - x[0]) ** 2 + (y[2] - y[0]) ** 2) / py) / 2
    b = photogrammetry_utils.reproject_geometry(extent, native, utm).bounds
    nx = int(np.round(abs(b[2] - b[0]) / gsd))
    ny = int(np.round(abs(b[3] - b[1]) / gsd))
    return ortho_tools.create_ortho_gtiff_image_world_to_sensor(image, nx, ny, extent, world_proj=native, dem=dem, bands=[j, k], nodata_val=0, spline_order=1)


def obstructed__code(image: Obj('resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage'), px: Arr(1), py: Arr(1), lons: Arr(1), lats: Arr(1), dem: Obj('resippy.photogrammetry.dem.abstract_dem.AbstractDem'), alts: Opt, res: Opt, band: Any):
    return ortho_tools.are_pixels_obstructed_by_dem(image, px, py, lons, lats, dem, alts, res, band)


def obstructed__spec(image, px, py, lons, lats, dem, alts, res, band):
    """a ground point is hidden when the terrain rises above its line of sight anywhere between it and the highest altitude, stepping no longer than the resolution"""
    pc = image.get_point_calculator()
    native = pc.get_projection()
    top = np.zeros(px.shape) + dem.get_highest_alt() + 0.001
    if alts is None:
        ground = dem.get_elevations(lons, lats, world_proj=native)
    else:
        ground = alts
    if res is None:
        step_len = 5
    else:
        step_len = res
    hl, ht = pc.pixel_x_y_alt_to_lon_lat(px, py, top, band=band)
    n = np.sqrt((lons - hl) ** 2 + (lats - ht) ** 2).max() / step_len
    hidden = np.zeros_like(lons)
    for k in np.arange(1, n):
        z = dem.get_elevations(lons + (hl - lons) * k / n, lats + (ht - lats) * k / n, world_proj=native)
        hidden[np.where(z > ground + (top - ground) * k / n)] = 1
    return hidden


def pixel_values__code(image: Obj('resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage'), lons: Arr(1), lats: Arr(1), alts: Arr(1), window: Scalar):
    return ortho_tools.get_pixel_values(image, lons, lats, alts, window)


def pixel_values__spec(image, lons, lats, alts, window):
    """for every band and point the mean of the valid samples in the window around the point's pixel"""
    nodata = image.get_metadata().get_nodata_val()
    h = np.round(window / 2).astype(int)
    out = []
    for band in range(image.get_metadata().get_n_bands()):
        img = image.read_band_from_disk(band)
        x, y = image.get_point_calculator().lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
        xi = np.round(x).astype(int)
        yi = np.round(y).astype(int)
        vals = []
        for cx, cy in zip(xi, yi):
            w = img[max(cy - h, 0):max(cy + h, 0), max(cx - h, 0):max(cx + h, 0)]
            vals.append(np.mean(w[w != nodata]))
        out.append(vals)
    return np.array(out)


def _two():
    m = GeotiffMetadata()
    m.set_n_bands(2)
    m.set_nodata_val(7)
    return m


def two_bands__code(image: Obj('resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage'), lons: Arr(1), lats: Arr(1), alts: Arr(1), window: Scalar):
    image.set_metadata(_two())
    return ortho_tools.get_pixel_values(image, lons, lats, alts, window)


def two_bands__spec(image, lons, lats, alts, window):
    """each of two bands is looked up where that band sees the points"""
    image.set_metadata(_two())
    nodata = image.get_metadata().get_nodata_val()
    h = np.round(window / 2).astype(int)
    out = []
    for band in (0, 1):
        img = image.read_band_from_disk(band)
        x, y = image.get_point_calculator().lon_lat_alt_to_pixel_x_y(lons, lats, alts, band=band)
        vals = []
        for cx, cy in zip(np.round(x).astype(int), np.round(y).astype(int)):
            w = img[max(cy - h, 0):max(cy + h, 0), max(cx - h, 0):max(cx + h, 0)]
            vals.append(np.mean(w[w != nodata]))
        out.append(vals)
    return np.array(out)


def igm__code(image: Obj('resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage'), dem: Obj('resippy.photogrammetry.dem.abstract_dem.AbstractDem'), step: Any):
    g = ortho_tools.create_igm_image(image, dem, step)
    pc = g.get_point_calculator()
    return g.get_image_data(), pc.lon_image, pc.lat_image, pc.alt_image, pc.get_projection(), g.get_metadata().get_n_bands()


def igm__spec(image, dem, step):
    """the image's pixels with the ground position of every pixel, in the image's projection"""
    nx, ny = image.get_metadata().get_npix_x(), image.get_metadata().get_npix_y()
    px, py = np.meshgrid(np.arange(0, nx, 1), np.arange(0, ny, 1))
    lon, lat, alt = image.get_point_calculator().pixel_x_y_to_lon_lat_alt(px, py, dem, dem_sample_distance=step)
    g = IgmImage.from_params(image.get_image_data(), lon, lat, alt, image.get_image_data().shape[2], image.get_point_calculator().get_projection())
    pc = g.get_point_calculator()
    return image.get_image_data(), lon, lat, pc.alt_image, image.get_point_calculator().get_projection(), image.get_image_data().shape[2]


def igm__spec2(image, dem, step):
    """the same, the bands counted along the last axis"""
    nx, ny = image.get_metadata().get_npix_x(), image.get_metadata().get_npix_y()
    px, py = np.meshgrid(np.arange(0, nx, 1), np.arange(0, ny, 1))
    lon, lat, alt = image.get_point_calculator().pixel_x_y_to_lon_lat_alt(px, py, dem, dem_sample_distance=step)
    data = image.get_image_data()
    g = IgmImage.from_params(data, lon, lat, alt, data.shape[-1], image.get_point_calculator().get_projection())
    pc = g.get_point_calculator()
    return data, lon, lat, pc.alt_image, image.get_point_calculator().get_projection(), data.shape[-1]


def backup__code(image: Obj('resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage'), nx: Scalar, ny: Scalar, poly: Val,
                proj: Val, dem: Obj('resippy.photogrammetry.dem.abstract_dem.AbstractDem'), b0: Scalar, b1: Scalar, nodata: Scalar):
    g = ortho_tools.create_ortho_gtiff_image_world_to_sensor_backup(image, nx, ny, poly, world_proj=proj, dem=dem, bands=[b0, b1], nodata_val=nodata)
    return g.get_image_data(), g.get_point_calculator().get_geot(), g.get_point_calculator().get_projection(), g.get_metadata().get_nodata_val()


def backup__spec(image, nx, ny, poly, proj, dem, b0, b1, nodata):
    """each requested band, in order, sampled where the ground of every output pixel falls in that band, on the requested grid"""
    env = poly.envelope
    minx, miny, maxx, maxy = env.bounds
    gx, gy = photogrammetry_utils.create_ground_grid(minx, maxx, miny, maxy, nx, ny)
    alts = dem.get_elevations(gx, gy, proj)
    pc = image.get_point_calculator()
    out = []
    for b in (b0, b1):
        if pc.bands_coregistered() is not True:
            px, py = pc.lon_lat_alt_to_pixel_x_y(gx, gy, alts, band=b, world_proj=proj)
            data = image.read_band_from_disk(b)
        else:
            px, py = pc.lon_lat_alt_to_pixel_x_y(gx, gy, alts, band=0, world_proj=proj)
            data = image.get_image_band(b)
            if data is None:
                data = image.read_band_from_disk(b)
        out.append(image_utils.grid_warp_image_band(data, px, py, nodata_val=nodata, interpolation='nearest').astype(data.dtype))
    geo = photogrammetry_utils.world_poly_to_geo_t(env, nx, ny)
    g = GeotiffImageFactory.from_numpy_array(np.stack(out, axis=2), geo, proj)
    return g.get_image_data(), geo, proj, nodata


def backup_smooth__code(image: Obj('resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage'), nx: Scalar, ny: Scalar, poly: Val,
                        proj: Val, dem: Obj('resippy.photogrammetry.dem.abstract_dem.AbstractDem'), nodata: Scalar):
    g = ortho_tools.create_ortho_gtiff_image_world_to_sensor_backup(image, nx, ny, poly, world_proj=proj, dem=dem, bands=[0, 2], nodata_val=nodata,
                                                                    interpolation='bilinear', mask_no_data_region=True)
    return g.get_image_data(), g.get_metadata().get_n_bands()


def backup_smooth__spec(image, nx, ny, poly, proj, dem, nodata):
    """the interpolation asked for in every band, and the alpha layer as the last band"""
    minx, miny, maxx, maxy = poly.envelope.bounds
    gx, gy = photogrammetry_utils.create_ground_grid(minx, maxx, miny, maxy, nx, ny)
    alts = dem.get_elevations(gx, gy, proj)
    pc = image.get_point_calculator()
    out = []
    for b in (0, 2):
        if pc.bands_coregistered() is not True:
            px, py = pc.lon_lat_alt_to_pixel_x_y(gx, gy, alts, band=b, world_proj=proj)
            data = image.read_band_from_disk(b)
        else:
            px, py = pc.lon_lat_alt_to_pixel_x_y(gx, gy, alts, band=0, world_proj=proj)
            data = image.get_image_band(b)
            if data is None:
                data = image.read_band_from_disk(b)
        v = sktransform.warp(data, np.array([py, px]), order=1, mode='constant', cval=nodata, preserve_range=True)
        out.append(v.astype(data.dtype))
    cube = np.stack(out, axis=2)
    a = cube[:, :, 0].copy()
    a[cube[:, :, 0] == nodata] = 0
    a[cube[:, :, 0] != nodata] = 255
    r = np.dstack((cube, a))
    return r, r.shape[2]


def backup_defaults__code(image: Obj('resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage'), nx: Scalar, ny: Scalar, poly: Val, out: Str):
    g = ortho_tools.create_ortho_gtiff_image_world_to_sensor_backup(image, nx, ny, poly, output_fname=out)
    return g.get_image_data(), g.get_point_calculator().get_geot(), g.get_point_calculator().get_projection(), g.get_metadata().get_nodata_val()


def backup_defaults__spec(image, nx, ny, poly, out):
    """every band of the image, zero altitude, nodata 0, nearest sample, WGS84, written where asked"""
    env = poly.envelope
    minx, miny, maxx, maxy = env.bounds
    gx, gy = photogrammetry_utils.create_ground_grid(minx, maxx, miny, maxy, nx, ny)
    alts = np.zeros(gx.shape)
    pc = image.get_point_calculator()
    md = image.get_metadata()
    layers = []
    if pc.bands_coregistered() is not True:
        for b in range(md.get_n_bands()):
            px, py = pc.lon_lat_alt_to_pixel_x_y(gx, gy, alts, band=b, world_proj=crs_defs.PROJ_4326)
            data = image.read_band_from_disk(b)
            layers.append(sktransform.warp(data, np.array([py, px]), order=0, mode='constant', cval=0, preserve_range=True).astype(data.dtype))
    else:
        px, py = pc.lon_lat_alt_to_pixel_x_y(gx, gy, alts, band=0, world_proj=crs_defs.PROJ_4326)
        for b in range(md.get_n_bands()):
            data = image.get_image_band(b)
            if data is None:
                data = image.read_band_from_disk(b)
            layers.append(sktransform.warp(data, np.array([py, px]), order=0, mode='constant', cval=0, preserve_range=True).astype(data.dtype))
    g = GeotiffImageFactory.from_numpy_array(np.stack(layers, axis=2), photogrammetry_utils.world_poly_to_geo_t(env, nx, ny), crs_defs.PROJ_4326)
    g.get_metadata().set_nodata_val(0)
    g.write_to_disk(out)
    return g.get_image_data(), g.get_point_calculator().get_geot(), crs_defs.PROJ_4326, 0


OPTS = {
    'ortho': {'fields': {'resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage#_point_calc': 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'},
        'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc.lon_lat_alt_to_pixel_x_y']},
    'backup': {'fields': {'resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage#_point_calc': 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'},
        'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc.lon_lat_alt_to_pixel_x_y']},
    'backup_smooth': {'fields': {'resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage#_point_calc': 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'},
        'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc.lon_lat_alt_to_pixel_x_y']},
    'backup_defaults': {'fields': {'resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage#_point_calc': 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'},
        'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc.lon_lat_alt_to_pixel_x_y'], 'effects': r'WriteArray|Create|SetGeoT|SetProj|SetNoData|FlushCache'},
    'masked': {'fields': {'resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage#_point_calc': 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'},
        'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc.lon_lat_alt_to_pixel_x_y']},
    'defaults': {'fields': {'resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage#_point_calc': 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'},
        'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc.lon_lat_alt_to_pixel_x_y'], 'effects': r'WriteArray|Create|SetGeoT|SetProj|SetNoData|FlushCache'},
    'pixel_lon_lats': {'fields': {'resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage#_point_calc': 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'},
        'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc.pixel_x_y_alt_to_lon_lat']},
    'half_lon_lats': {'fields': {'resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage#_point_calc': 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'},
        'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc.pixel_x_y_alt_to_lon_lat']},
    'all_lon_lats': {'fields': {'resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage#_point_calc': 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'},
        'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc.pixel_x_y_alt_to_lon_lat']},
    'extent': {'fields': {'resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage#_point_calc': 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'},
        'opaque': ['resippy.photogrammetry.ortho_tools.get_pixel_lon_lats']},
    'extent_band': {'fields': {'resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage#_point_calc': 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'},
        'opaque': ['resippy.photogrammetry.ortho_tools.get_pixel_lon_lats']},
    'full': {'fields': {'resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage#_point_calc': 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'},
        'opaque': ['resippy.photogrammetry.ortho_tools.get_extent', 'resippy.photogrammetry.ortho_tools.create_ortho_gtiff_image_world_to_sensor']},
    'native_gsd': {'fields': {'resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage#_point_calc': 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'},
        'opaque': ['resippy.photogrammetry.ortho_tools.get_extent', 'resippy.photogrammetry.ortho_tools.create_ortho_gtiff_image_world_to_sensor', 'resippy.photogrammetry.ortho_tools.get_pixel_lon_lats']},
    'bands_gsd': {'fields': {'resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage#_point_calc': 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'},
        'opaque': ['resippy.photogrammetry.ortho_tools.get_extent', 'resippy.photogrammetry.ortho_tools.create_ortho_gtiff_image_world_to_sensor', 'resippy.photogrammetry.ortho_tools.get_pixel_lon_lats']},
    'obstructed': {'fields': {'resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage#_point_calc': 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'},
        'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc.pixel_x_y_alt_to_lon_lat']},
    'two_bands': {'fields': {'resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage#_point_calc': 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'},
        'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc.lon_lat_alt_to_pixel_x_y']},
    'pixel_values': {'fields': {'resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage#_point_calc': 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'},
        'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc.lon_lat_alt_to_pixel_x_y']},
    'igm': {'fields': {'resippy.image_objects.earth_overhead.abstract_earth_overhead_image.AbstractEarthOverheadImage#_point_calc': 'resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc'},
        'opaque': ['resippy.image_objects.earth_overhead.earth_overhead_point_calculators.abstract_earth_overhead_point_calc.AbstractEarthOverheadPointCalc.pixel_x_y_to_lon_lat_alt']},
}


INCLUDE = ['P10.affine', 'P10.extent', 'P16.write', 'P16.from_cube', 'P16.from_plane', 'P30.warp', 'P40.count', 'P40.geometry', 'P40.named', 'P39.bands']
