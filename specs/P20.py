"""covariance equalization and masked statistics."""
import numpy as np
import scipy
from resippy.spectral import spectral_image_processing_1d as sp


def transform__code(a: Arr(2), b: Arr(2), ma: OptArr(1), mb: OptArr(1)):
    return sp.compute_cov_eq_linear_transform_matrix(a, b, ma, mb)


def transform__spec(a, b, ma, mb):
    """whitening of the input scene followed by colouring with the reference scene: C2^(1/2) C1^(-1/2)"""
    c1 = sp.compute_image_cube_spectral_covariance(a, ma)
    c2 = sp.compute_image_cube_spectral_covariance(b, mb)
    return np.dot(scipy.linalg.fractional_matrix_power(c2, 0.5), scipy.linalg.fractional_matrix_power(c1, -0.5))


def apply__code(a: Arr(2), b: Arr(2), ma: OptArr(1), mb: OptArr(1)):
    return sp.covariance_equalization_mean_centered(a, b, ma, mb)


def apply__spec(a, b, ma, mb):
    """every spectrum of the input scene goes through the transform"""
    t = sp.compute_cov_eq_linear_transform_matrix(a, b, ma, mb)
    return np.transpose(np.dot(t, np.transpose(a)))


def masked__code(x: Arr(2), mask: Arr(1, 'x.0')):
    return sp.compute_image_cube_spectral_mean(x, mask), sp.compute_image_cube_spectral_covariance(x, mask), sp.demean_image_data(x, mask)


def masked__spec(x, mask):
    """pixels whose mask is set are left out of the statistics in every band; only the mean is subtracted from all pixels"""
    full = np.zeros(x.shape)
    for k in range(x.shape[1]):
        full[:, k] = mask
    m = np.ma.masked_array(x, full)
    mean = np.ma.mean(m, axis=0)
    return mean, np.ma.cov(np.transpose(m)), x - mean


def masked__spec2(x, mask):
    """the same statistics over the selected pixels"""
    y = x[np.logical_not(mask)]
    mean = np.mean(y, axis=0)
    return mean, np.cov(np.transpose(y)), x - mean
