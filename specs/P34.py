"""image utilities."""
import numpy as np
import gdal
import ogr
import osr
import colorutils
import seaborn
from skimage import transform as sktransform
from PIL import Image
from resippy.utils.image_utils import image_utils as iu
from resippy.utils.image_utils import image_mask_utils
from resippy.utils.image_utils.image_registration import MMI


def uniform__code(nx: Scalar, ny: Scalar, b: Scalar, vs: ListOf(3, 'scalar'), dt: Sym):
    return iu.create_uniform_image_data(nx, ny, b, vs, dt)


def uniform__spec(nx, ny, b, vs, dt):
    """ny rows, nx columns, b bands of the requested type, each band filled with its own value"""
    out = np.zeros((ny, nx, b))
    for k in range(3):
        out[:, :, k] = vs[k]
    return out.astype(dt)


def uniform_default__code(nx: Scalar, ny: Scalar):
    return iu.create_uniform_image_data(nx, ny)


def uniform_default__spec(nx, ny):
    """one band of 128s, 8 bit, by default; an integer value fills every band"""
    out = np.zeros((ny, nx, 1))
    out[:, :, :] = 128
    return out.astype(np.uint8)


def warp__code(im: Arr(2), xs: Arr(2), ys: Arr(2), nd: Scalar, m: Str):
    return iu.grid_warp_image_band(im, xs, ys, nd, m), iu.grid_warp_image_band(im, xs, ys)


def warp__spec(im, xs, ys, nd, m):
    """the image is sampled at (row, column) in its own range, nodata outside, with the spline order named; nearest neighbour and zero by default"""
    orders = {'nearest': 0, 'bilinear': 1, 'biquadratic': 2, 'bicubic': 3, 'biquartic': 4, 'biquintic': 5}
    if m not in orders:
        raise ValueError
    return (sktransform.warp(im, np.array([ys, xs]), preserve_range=True, mode='constant', cval=nd, order=orders[m]),
            sktransform.warp(im, np.array([ys, xs]), preserve_range=True, mode='constant', cval=0, order=0))


def normalize__code(im: Arr(2), lo: Scalar, hi: Scalar, dt: Sym):
    return iu.normalize_grayscale_image(im, lo, hi), iu.normalize_grayscale_image(im, lo, hi, dt)


def normalize__spec(im, lo, hi, dt):
    """linear map taking the image's minimum to lo and its maximum to hi, in the requested type if any"""
    v = lo + (hi - lo) * (im - np.min(im)) / (np.max(im) - np.min(im))
    return v, v.astype(dt)


def sizes__code(a: Arr(2), c: Arr(3)):
    return iu.is_grayscale(a), iu.is_grayscale(c), iu.get_image_ny_nx_nbands(a), iu.get_image_ny_nx_nbands(c)


def sizes__spec(a, c):
    """rows, columns, bands; a plane has one band"""
    return True, False, (a.shape[0], a.shape[1], 1), (c.shape[0], c.shape[1], c.shape[2])


def pixel_grid__code(nx: Scalar, ny: Scalar, s: Scalar):
    return iu.create_pixel_grid(nx, ny, s), iu.create_pixel_grid(nx, ny)


def pixel_grid__spec(nx, ny, s):
    """x varies along columns and y along rows, in steps of 1/scale, from zero to the image size"""
    return np.meshgrid(np.arange(0, nx, 1 / s), np.arange(0, ny, 1 / s)), np.meshgrid(np.arange(0, nx, 1.0), np.arange(0, ny, 1.0))


def blend__code(a: Arr(3), b: Arr(3), p: Scalar):
    return iu.blend_images(a, b, p), iu.blend_images(a, b)


def blend__spec(a, b, p):
    """weighted mean, p of the first image and the rest of the second; half and half by default"""
    return p * a + (1 - p) * b, 0.5 * a + 0.5 * b


def resize__code(a: Arr(3), ny: Scalar, nx: Scalar):
    return iu.resize_image(a, ny, nx)


def resize__spec(a, ny, nx):
    """PIL's resize to ny rows and nx columns"""
    return np.array(Image.fromarray(a).resize((nx, ny)))


def detections__code(scores: Arr(1), ul: Arr(2), w: Scalar, h: Scalar):
    return iu.create_detection_image_from_scores(scores, ul, w, h)


def detections__spec(scores, ul, w, h):
    """every chip's footprint holds its score; where chips overlap the highest score wins"""
    out = np.zeros((ul[:, 0].max() + h, ul[:, 1].max() + w))
    for k in np.argsort(scores):
        y, x = ul[k][0], ul[k][1]
        out[y:y + h, x:x + w] = scores[k]
    return out


def _colors(im, pal, lo, hi, n):
    """continuous colour map: linear interpolation between the n palette entries spread evenly over lo..hi, the end colours outside"""
    at = np.linspace(lo, hi, n)
    low = np.zeros(im.shape, dtype=int)
    x0 = np.zeros(im.shape)
    x1 = np.zeros(im.shape)
    for k in range(n - 1):
        hit = np.logical_and(im >= at[k], im <= at[k + 1])
        low[hit] = k
        x0[hit] = at[k]
        x1[hit] = at[k + 1]
    return low, x0, x1


def _continuous(im, pal, lo, hi, n):
    low, x0, x1 = _colors(im, pal, lo, hi, n)
    f = (im - x0) / (x1 - x0)
    out = np.zeros((im.shape[0], im.shape[1], 3))
    for c in range(3):
        c0 = np.zeros(im.shape)
        c1 = np.zeros(im.shape)
        for k in range(n - 1):
            c0[np.where(low == k)] = pal[k, c]
            c1[np.where(low == k)] = pal[k + 1, c]
        out[:, :, c] = c0 * (1 - f) + c1 * f
    out[im < lo, :] = pal[0, :]
    out[im > hi, :] = pal[-1, :]
    return out


def colormap__code(im: Arr(2), pal: Mat(3, 3), lo: Scalar, hi: Scalar):
    return iu.apply_colormap_to_grayscale_image(im, pal, min_clip=lo, max_clip=hi)


def colormap__spec(im, pal, lo, hi):
    """with a palette of three: each pixel is interpolated linearly between the colours of the two palette positions around it, the palette positions spread evenly over
    the clip range, end colours outside, scaled to 255 and truncated to 8 bits"""
    return np.asarray(_continuous(im, pal, lo, hi, 3) * 255.0, dtype=np.uint8)


def steps__code(im: Arr(2), pal: Mat(3, 3), lo: Scalar, hi: Scalar, dt: Sym):
    return iu.apply_colormap_to_grayscale_image(im, pal, continuous=False, min_clip=lo, max_clip=hi, output_dtype=dt)


def steps__spec(im, pal, lo, hi, dt):
    """discrete colours: the clip range is cut into as many equal bins as there are colours"""
    top = lo + (hi - lo) * 2 / 3
    low, x0, x1 = _colors(im, pal, lo, top, 3)
    out = np.zeros((im.shape[0], im.shape[1], 3))
    for c in range(3):
        c0 = np.zeros(im.shape)
        for k in range(2):
            c0[np.where(low == k)] = pal[k, c]
        out[:, :, c] = c0
    out[im < lo, :] = pal[0, :]
    out[im > top, :] = pal[-1, :]
    return np.asarray(out * 255.0, dtype=dt)


def binned__code(im: Arr(2), pal: Mat(2, 3), lo: Scalar, hi: Scalar):
    return iu.apply_colormap_to_grayscale_image(im, pal, n_bins=3, min_clip=lo, max_clip=hi)


def binned__spec(im, pal, lo, hi):
    """asking for a number of bins first resamples the palette to that many colours, evenly over the clip range"""
    ramp = np.expand_dims(np.linspace(lo, hi, 3), 0)
    fine = np.squeeze(iu.apply_colormap_to_grayscale_image(ramp, pal, continuous=True, output_dtype=np.float64) / 255.0)
    return np.asarray(_continuous(im, fine, lo, hi, 3) * 255.0, dtype=np.uint8)


def palette__code(im: Arr(2), lo: Scalar, hi: Scalar):
    return iu.apply_colormap_to_grayscale_image(im, min_clip=lo, max_clip=hi)


def palette__spec(im, lo, hi):
    """the default palette is seaborn's reversed green to blue"""
    return iu.apply_colormap_to_grayscale_image(im, np.asarray(seaborn.color_palette("GnBu_r")), min_clip=lo, max_clip=hi)


def clip_range__code(im: Arr(2), pal: Mat(2, 3), nodata: Scalar):
    return iu.apply_colormap_to_grayscale_image(im, pal), iu.apply_colormap_to_grayscale_image(im, pal, nodata=nodata)


def clip_range__spec(im, pal, nodata):
    """by default the range is the image's own, ignoring NaN and nodata samples"""
    good = im[im != nodata]
    return (iu.apply_colormap_to_grayscale_image(im, pal, min_clip=np.nanmin(im), max_clip=np.nanmax(im)),
            iu.apply_colormap_to_grayscale_image(im, pal, min_clip=np.nanmin(good), max_clip=np.nanmax(good)))


def locations__code(im: Arr(3), a: Str, b: Str, la: Str, lb: Str):
    return image_mask_utils.rgb_image_point_mask_to_pixel_locations(im, {a: la, b: lb})


def locations__spec(im, a, b, la, lb):
    """for each colour, the rows and columns of the pixels of exactly that colour, under its label; an alpha channel does not count"""
    if im.shape[2] == 4:
        im = im[:, :, 0:3]
    r = {}
    y, x = np.where(np.sum(im == colorutils.hex_to_rgb(a), axis=2) == 3)
    r[la] = (y, x)
    y, x = np.where(np.sum(im == colorutils.hex_to_rgb(b), axis=2) == 3)
    r[lb] = (y, x)
    return r


def locations__spec2(im, a, b, la, lb):
    """the same, band by band"""
    r = {}
    p = colorutils.hex_to_rgb(a)
    r[la] = np.where((im[:, :, 0] == p[0]) & (im[:, :, 1] == p[1]) & (im[:, :, 2] == p[2]))
    p = colorutils.hex_to_rgb(b)
    r[lb] = np.where((im[:, :, 0] == p[0]) & (im[:, :, 1] == p[1]) & (im[:, :, 2] == p[2]))
    return r


def nonblack__code(im: Arr(3)):
    return image_mask_utils.rgb_image_point_mask_to_pixel_locations(im)


def nonblack__spec(im):
    """without colours, every pixel that is not black"""
    if im.shape[2] == 4:
        im = im[:, :, 0:3]
    return np.where(np.sum(im, axis=2) > 0)


def mmi__code(a: Arr(2), b: Arr(2), n: Scalar):
    return MMI.image_mmi(a, b, n)


def mmi__spec(a, b, n):
    """sum over the occupied cells of the joint histogram of N_ij log(N_ij / (N_i N_j))"""
    x, y = a.ravel(), b.ravel()
    h1 = np.histogram(x, bins=n)[0].astype(float)
    h2 = np.histogram(y, bins=n)[0].astype(float)
    h = np.histogram2d(x, y, bins=n)[0].astype(float)
    s = 0
    for i in range(len(h1)):
        for j in range(len(h1)):
            if h[i, j] != 0:
                s += h[i, j] * np.log(h[i, j] / (h1[i] * h2[j]))
    return s


def gridded__code(im: Arr(2), out: Str, xs: Arr(2), ys: Arr(2), nx: Scalar, ny: Scalar, wkt: Str, nodata: Scalar):
    return iu.gdal_grid_image_band(im, out, xs, ys, nx, ny, wkt, nodata)


def gridded__spec(im, out, xs, ys, nx, ny, wkt, nodata):
    """every pixel is a point at its own coordinates with its value in Z, gridded to nx by ny with the requested nodata value at the requested destination"""
    src = gdal.GetDriverByName('MEMORY').Create('memData', 0, 0, 0, gdal.GDT_Unknown)
    layer = src.CreateLayer('image', srs=osr.SpatialReference(wkt) if wkt else None, geom_type=ogr.wkbPoint)
    layer.CreateField(ogr.FieldDefn("Z", ogr.OFTReal))
    for i in range(im.shape[1]):
        for j in range(im.shape[0]):
            f = ogr.Feature(layer.GetLayerDefn())
            p = ogr.Geometry(ogr.wkbPoint)
            p.AddPoint(float(xs[j, i]), float(ys[j, i]))
            f.SetGeometry(p)
            f.SetField("Z", float(im[j, i]))
            layer.CreateFeature(f)
    gdal.Grid(out, src, options=gdal.GridOptions(width=nx, height=ny, noData=nodata, zfield="Z"))


OPTS = {
    'gridded': {'effects': r'AddPoint|SetField|SetGeometry|CreateFeature|CreateField|CreateLayer|Grid$'},
    'clip_range': {'opaque': []},
}
