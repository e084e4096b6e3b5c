"""image chips."""
import os
import numpy as np
import imageio
from resippy.utils.image_utils import image_chipper as ch
from resippy.utils.image_utils import image_utils


def windows__code(im: Arr(3), ys: Arr(1), xs: Arr(1), h: Scalar, w: Scalar):
    return ch.chip_images_by_pixel_upper_lefts(im, ys, xs, h, w, keep_within_image_bounds=False)


def windows__spec(im, ys, xs, h, w):
    """chip k is the h by w window whose upper left is (ys[k], xs[k]), all bands in order, and offset k names it; one band gives 2-D chips"""
    n = len(ys)
    nb = im.shape[2]
    out = np.zeros((n, h, w, nb), dtype=im.dtype)
    where = []
    k = 0
    for y, x in zip(ys, xs):
        out[k, :, :, :] = im[y:y + h, x:x + w, np.arange(0, nb).astype(int)]
        where.append((y, x))
        k = k + 1
    if nb == 1:
        out = np.reshape(out, (n, h, w))
    return out, where


def gray__code(im: Arr(2), ys: Arr(1), xs: Arr(1), h: Scalar, w: Scalar):
    return ch.chip_images_by_pixel_upper_lefts(im, ys, xs, h, w, keep_within_image_bounds=False)


def gray__spec(im, ys, xs, h, w):
    """a grayscale image gives 2-D chips of the same windows"""
    n = len(ys)
    cube = np.reshape(im, (im.shape[0], im.shape[1], 1))
    out = np.zeros((n, h, w, 1), dtype=cube.dtype)
    where = []
    k = 0
    for y, x in zip(ys, xs):
        out[k, :, :, :] = cube[y:y + h, x:x + w, np.arange(0, 1).astype(int)]
        where.append((y, x))
        k = k + 1
    return np.reshape(out, (n, h, w)), where


def inside__code(im: Arr(3), ys: Arr(1), xs: Arr(1), h: Scalar, w: Scalar):
    return ch.chip_images_by_pixel_upper_lefts(im, ys, xs, h, w)


def inside__spec(im, ys, xs, h, w):
    """windows reaching outside the image are shifted to lie inside, first from the far edge and then from the near one"""
    ny, nx, nb = im.shape
    ys = np.where(ys > ny - h, ny - h, ys)
    ys = np.where(ys < 0, 0, ys)
    xs = np.where(xs > nx - w, nx - w, xs)
    xs = np.where(xs < 0, 0, xs)
    return ch.chip_images_by_pixel_upper_lefts(im, ys, xs, h, w, keep_within_image_bounds=False)


def bands__code(im: Arr(3), ys: Arr(1), xs: Arr(1), h: Scalar, w: Scalar, b0: Scalar, b1: Scalar):
    return ch.chip_images_by_pixel_upper_lefts(im, ys, xs, h, w, bands=[b0, b1], keep_within_image_bounds=False)


def bands__spec(im, ys, xs, h, w, b0, b1):
    """only the requested bands, in the requested order"""
    n = len(ys)
    out = np.zeros((n, h, w, 2), dtype=im.dtype)
    where = []
    k = 0
    for y, x in zip(ys, xs):
        out[k, :, :, :] = im[y:y + h, x:x + w, [b0, b1]]
        where.append((y, x))
        k = k + 1
    return out, where


def one_band__code(im: Arr(3), ys: Arr(1), xs: Arr(1), h: Scalar, w: Scalar):
    return ch.chip_images_by_pixel_upper_lefts(im, ys, xs, h, w, bands=2, keep_within_image_bounds=False)


def one_band__spec(im, ys, xs, h, w):
    """a single band number selects that band and gives 2-D chips"""
    n = len(ys)
    out = np.zeros((n, h, w, 1), dtype=im.dtype)
    where = []
    k = 0
    for y, x in zip(ys, xs):
        out[k, :, :, :] = im[y:y + h, x:x + w, [2]]
        where.append((y, x))
        k = k + 1
    return np.reshape(out, (n, h, w)), where


def first_band__code(im: Arr(3), ys: Arr(1), xs: Arr(1), h: Scalar, w: Scalar):
    return ch.chip_images_by_pixel_upper_lefts(im, ys, xs, h, w, bands=0)


def first_band__spec(im, ys, xs, h, w):
    """the first band is a band like any other"""
    return ch.chip_images_by_pixel_upper_lefts(im, ys, xs, h, w, bands=[0])


def grid__code(im: Arr(3), h: Scalar, w: Scalar, oy: Scalar, ox: Scalar, bands: Opt):
    return ch.chip_entire_image_to_memory(im, h, w, oy, ox, bands)


def grid__spec(im, h, w, oy, ox, bands):
    """upper lefts step by the chip size less the overlap, the last row and column end at the image edge, rows before columns, no window twice"""
    ny, nx, nb = im.shape
    ys = np.arange(0, ny, h - oy)
    xs = np.arange(0, nx, w - ox)
    ys = sorted(list(set(np.where(ys >= ny - h, ny - h, ys))))
    xs = sorted(list(set(np.where(xs >= nx - w, nx - w, xs))))
    yy = []
    xx = []
    for y in ys:
        for x in xs:
            yy.append(y)
            xx.append(x)
    return ch.chip_images_by_pixel_upper_lefts(im, yy, xx, h, w, bands=bands)


def grid_bounds__code(im: Arr(3), h: Scalar, w: Scalar, keep: Bool):
    return ch.chip_entire_image_to_memory(im, h, w, keep_within_image_bounds=keep)


def grid_bounds__spec(im, h, w, keep):
    """without overlap, and the bounds option is passed on"""
    ny, nx, nb = im.shape
    ys = np.arange(0, ny, h)
    xs = np.arange(0, nx, w)
    ys = sorted(list(set(np.where(ys >= ny - h, ny - h, ys))))
    xs = sorted(list(set(np.where(xs >= nx - w, nx - w, xs))))
    yy = []
    xx = []
    for y in ys:
        for x in xs:
            yy.append(y)
            xx.append(x)
    return ch.chip_images_by_pixel_upper_lefts(im, yy, xx, h, w, keep_within_image_bounds=keep)


def grid_gray__code(im: Arr(2), h: Scalar, w: Scalar, oy: Scalar, ox: Scalar):
    return ch.chip_entire_image_to_memory(im, h, w, oy, ox)


def grid_gray__spec(im, h, w, oy, ox):
    """a grayscale image is chipped as a one-band cube"""
    return ch.chip_entire_image_to_memory(np.reshape(im, (im.shape[0], im.shape[1], 1)), h, w, oy, ox)


def centers__code(im: Arr(3), ys: Arr(1), xs: Arr(1), h: Scalar, w: Scalar, bands: Opt, keep: Bool):
    return ch.chip_images_by_pixel_centers(im, ys, xs, h, w, bands, keep)


def centers__spec(im, ys, xs, h, w, bands, keep):
    """centres are turned into upper lefts by half a chip, truncated"""
    return ch.chip_images_by_pixel_upper_lefts(im, (ys - h / 2).astype(int), (xs - w / 2).astype(int), h, w, bands=bands, keep_within_image_bounds=keep)


def defaults__code(im: Arr(3), ys: Arr(1), xs: Arr(1)):
    return ch.chip_images_by_pixel_upper_lefts(im, ys, xs), ch.chip_entire_image_to_memory(im), ch.chip_images_by_pixel_centers(im, ys, xs), ch.get_nchips(im)


def defaults__spec(im, ys, xs):
    """256 by 256 chips, no overlap, all bands, kept inside the image"""
    return (ch.chip_images_by_pixel_upper_lefts(im, ys, xs, 256, 256, None, True), ch.chip_entire_image_to_memory(im, 256, 256, 0, 0, None, True),
            ch.chip_images_by_pixel_centers(im, ys, xs, 256, 256, None, True), im.shape[0])


def write__code(chips: Arr(4), out: Str, base: Opt, names: Opt, ny: Opt, nx: Scalar, alpha: Bool, fmt: Str):
    ch.write_chips_to_disk(chips, out, base, names, ny, nx, alpha, fmt)


def write__spec(chips, out, base, names, ny, nx, alpha, fmt):
    """chip k goes to its own file, resized when asked, without its alpha channel when asked"""
    if base is None:
        base = os.path.basename(out)
    for k in range(chips.shape[0]):
        c = chips[k]
        if ny is not None:
            c = image_utils.resize_image(c, ny, nx)
        if alpha is True and c.ndim == 3 and c.shape[-1] == 4:
            c = c[:, :, 0:3]
        f = base + '_' + str(k).zfill(8)
        if names is not None:
            f = names[k]
        imageio.imsave(os.path.join(out, f + '.' + fmt.replace('.', '')), c)


OPTS = {'write': {'effects': 'imsave', 'value': False}}
