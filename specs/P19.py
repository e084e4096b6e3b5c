"""image-cube wrappers apply the per-pixel routine to the pixels in row-major order."""
import numpy as np
from sklearn.decomposition import PCA
from resippy.spectral import spectral_image_processing_1d as one
from resippy.spectral import spectral_image_processing_2d as two
from resippy.utils import spectral_utils as su
from resippy.utils.image_utils import image_utils as iu


def stats__code(c: Arr(3), mask: OptArr(2)):
    return (two.compute_image_cube_spectral_mean(c, mask), two.compute_image_cube_spectral_covariance(c, mask), two.demean_image_data(c, mask))


def stats__spec(c, mask):
    """mean and covariance of the cube are those of its pixel list; de-meaning restores the shape"""
    ny, nx, nb = c.shape
    x = np.reshape(c, (ny * nx, nb))
    m = None
    if mask is not None:
        m = np.reshape(mask, mask.shape[0] * mask.shape[1])
    mean = one.compute_image_cube_spectral_mean(x, m)
    return mean, one.compute_image_cube_spectral_covariance(x, m), np.reshape(one.demean_image_data(x, m), (ny, nx, nb))


def rx__code(c: Arr(3), mean: OptArr(1), inv: OptSym):
    return two.rx_anomaly_detector(c, mean, inv)


def rx__spec(c, mean, inv):
    """RX of each pixel"""
    ny, nx, nb = c.shape
    return np.reshape(one.rx_anomaly_detector(np.reshape(c, (ny * nx, nb)), mean, inv), (ny, nx))


def ace__code(c: Arr(3), t: Arr(1), mean: OptArr(1), inv: OptSym, mask: OptArr(2)):
    return two.ace(c, t, mean, inv, mask)


def ace__spec(c, t, mean, inv, mask):
    """ACE of each pixel; the mask is flattened the same way"""
    ny, nx, nb = c.shape
    m = None
    if mask is not None:
        m = np.reshape(mask, mask.shape[0] * mask.shape[1])
    return np.reshape(one.ace(np.reshape(c, (ny * nx, nb)), t, mean, inv, m), (ny, nx))


def ace_demeaned__code(c: Arr(3), s: Arr(1), inv: Sym):
    return two.ace_demeaned(c, s, inv)


def ace_demeaned__spec(c, s, inv):
    """ACE of each de-meaned pixel"""
    ny, nx, nb = c.shape
    return np.reshape(one.ace_demeaned(np.reshape(c, (ny * nx, nb)), s, inv), (ny, nx))


def sam__code(c: Arr(3), t: Arr(1)):
    return two.sam(c, t)


def sam__spec(c, t):
    """SAM of each pixel"""
    ny, nx, nb = c.shape
    return np.reshape(one.sam(np.reshape(c, (ny * nx, nb)), t), (ny, nx))


def equalize__code(a: Arr(3), bv: Arr(1), p: Scalar, q: Scalar, ma: OptArr(2), mb: OptArr(2)):
    b = np.reshape(bv, (p, q, a.shape[2]))
    return two.covariance_equalization_mean_centered(a, b, ma, mb), two.compute_cov_eq_linear_transform_matrix(a, b, ma, mb)


def equalize__spec(a, bv, p, q, ma, mb):
    """covariance equalization of the pixel lists, each scene with its own mask"""
    ny, nx, nb = a.shape
    x = np.reshape(a, (ny * nx, nb))
    y = np.reshape(bv, (p * q, nb))
    m = None
    n = None
    if ma is not None:
        m = np.reshape(ma, ma.shape[0] * ma.shape[1])
    if mb is not None:
        n = np.reshape(mb, mb.shape[0] * mb.shape[1])
    return np.reshape(one.covariance_equalization_mean_centered(x, y, m, n), (ny, nx, nb)), one.compute_cov_eq_linear_transform_matrix(x, y, m, n)


def pca__code(c: Arr(3), n: Opt, whiten: Bool):
    return two.compute_image_cube_pca(c, n, whiten)


def pca__spec(c, n, whiten):
    """principal components of the pixel list, with the requested number of components and whitening"""
    ny, nx, nb = c.shape
    r = PCA(n_components=n, whiten=whiten).fit_transform(np.reshape(c, (ny * nx, nb)))
    return np.reshape(r, (ny, nx, r.shape[1]))


def shapes__code(c: Arr(3), x: Arr(2), v: Arr(1), nx: Scalar, ny: Scalar):
    return (su.flatten_image_cube(c), su.unflatten_image_cube(x, nx, ny), iu.flatten_image_band(x), iu.unflatten_image_band(v, nx, ny),
            su.get_2d_cube_nx_ny_nbands(c), su.is_2d_cube(c), su.is_2d_cube(x), su.is_1d_cube(c), su.is_1d_cube(x), su.is_1d_cube(v), su.is_2d_cube(v))


def shapes__spec(c, x, v, nx, ny):
    """flattening and unflattening are row-major and inverse to each other; cubes are told apart by rank"""
    return (np.reshape(c, (c.shape[0] * c.shape[1], c.shape[2])), np.reshape(x, (ny, nx, x.shape[1])), np.reshape(x, x.shape[0] * x.shape[1]),
            np.reshape(v, (ny, nx)), (c.shape[1], c.shape[0], c.shape[2]), True, False, False, True, False, False)


def ranks__code(h: Arr(4), c: Arr(3), x: Arr(2), v: Arr(1)):
    return [(su.is_2d_cube(a), su.is_1d_cube(a)) for a in (h, c, x, v)]


def ranks__spec(h, c, x, v):
    """a cube has exactly three axes, a flattened cube exactly two"""
    return [(False, False), (True, False), (False, True), (False, False)]


def asked__code(c: Arr(3), d: Arr(3), t: Arr(1), mean: OptArr(1), inv: Sym, ma: Arr(2), mb: Arr(2)):
    return (two.ace(c, t, mean, inv, ma), two.ace_demeaned(c, t, inv), two.sam(c, t), two.rx_anomaly_detector(c, mean, inv),
            two.covariance_equalization_mean_centered(c, d, ma, mb), two.compute_cov_eq_linear_transform_matrix(c, d, ma, mb))


def asked__spec(c, d, t, mean, inv, ma, mb):
    """each per-pixel routine is given the image, the target, the statistics and the masks in their own places"""
    ny, nx, nb = c.shape
    x = np.reshape(c, (ny * nx, nb))
    y = np.reshape(d, (d.shape[0] * d.shape[1], d.shape[2]))
    m = np.reshape(ma, ma.shape[0] * ma.shape[1])
    n = np.reshape(mb, mb.shape[0] * mb.shape[1])
    e = one.covariance_equalization_mean_centered(x, y, m, n)
    return (np.reshape(one.ace(x, t, mean, inv, m), (ny, nx)), np.reshape(one.ace_demeaned(x, t, inv), (ny, nx)), np.reshape(one.sam(x, t), (ny, nx)),
            np.reshape(one.rx_anomaly_detector(x, mean, inv), (ny, nx)),
            np.reshape(e, (ny, nx, e.shape[1])), one.compute_cov_eq_linear_transform_matrix(x, y, m, n))


OPTS = {
    'asked': {'opaque': ['resippy.spectral.spectral_image_processing_1d.ace', 'resippy.spectral.spectral_image_processing_1d.ace_demeaned',
                         'resippy.spectral.spectral_image_processing_1d.sam', 'resippy.spectral.spectral_image_processing_1d.rx_anomaly_detector',
                         'resippy.spectral.spectral_image_processing_1d.covariance_equalization_mean_centered',
                         'resippy.spectral.spectral_image_processing_1d.compute_cov_eq_linear_transform_matrix']},
}
