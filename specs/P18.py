"""target and anomaly detectors."""
import numpy as np
from resippy.spectral import spectral_image_processing_1d as sp


def rx__code(x: Arr(2), mean: OptArr(1), inv: OptSym):
    return sp.rx_anomaly_detector(x, mean, inv)


def rx__spec(x, mean, inv):
    """Mahalanobis distance of each spectrum from the mean under the inverse covariance"""
    if mean is None:
        mean = np.mean(x, axis=0)
    if inv is None:
        inv = np.linalg.inv(np.cov(np.transpose(x)))
    d = x - mean
    return np.sum(np.dot(d, inv) * d, axis=1)


def ace__code(x: Arr(2), t: Arr(1), mean: OptArr(1), inv: OptSym, mask: OptArr(1)):
    return sp.ace(x, t, mean, inv, mask)


def ace__spec(x, t, mean, inv, mask):
    """(s' C x)^2 / ((s' C s)(x' C x)) on de-meaned spectra and signature; mean and covariance are estimated from the unmasked pixels only when not given"""
    if mean is None:
        mean = sp.compute_image_cube_spectral_mean(x, mask)
    if inv is None:
        inv = np.linalg.inv(sp.compute_image_cube_spectral_covariance(x, mask))
    d = x - mean
    s = t - mean
    return np.square(np.dot(d, np.dot(inv, s))) / (np.dot(s, np.dot(inv, s)) * np.sum(np.dot(d, inv) * d, axis=1))


def ace_demeaned__code(d: Arr(2), s: Arr(1), inv: Sym):
    return sp.ace_demeaned(d, s, inv)


def ace_demeaned__spec(d, s, inv):
    """the same score on spectra that are already de-meaned"""
    return np.square(np.dot(d, np.dot(inv, s))) / (np.dot(s, np.dot(inv, s)) * np.sum(np.dot(d, inv) * d, axis=1))


def sam__code(x: Arr(2), t: Arr(1)):
    return sp.sam(x, t)


def sam__spec(x, t):
    """cosine of the angle between each spectrum and the signature"""
    return np.dot(x, t) / (np.sqrt(np.dot(t, t)) * np.sqrt(np.sum(np.square(x), axis=1)))


def stats__code(x: Arr(2), mask: OptArr(1)):
    return (sp.compute_image_cube_spectral_mean(x), sp.compute_image_cube_spectral_covariance(x), sp.demean_image_data(x))


def stats__spec(x, mask):
    """mean spectrum over pixels and band-by-band covariance"""
    m = np.mean(x, axis=0)
    return m, np.cov(np.transpose(x)), x - m


INCLUDE = ['P41.scores', 'P20.masked']
