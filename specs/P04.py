"""create_M_matrix: elementary rotations composed in the named order."""
import numpy as np
from resippy.utils import photogrammetry_utils as pu


def _omega(a):
    return np.array([[1.0, 0.0, 0.0], [0.0, np.cos(a), np.sin(a)], [0.0, -np.sin(a), np.cos(a)]])


def _phi(a):
    return np.array([[np.cos(a), 0.0, -np.sin(a)], [0.0, 1.0, 0.0], [np.sin(a), 0.0, np.cos(a)]])


def _kappa(a):
    return np.array([[np.cos(a), np.sin(a), 0.0], [-np.sin(a), np.cos(a), 0.0], [0.0, 0.0, 1.0]])


def default_order__code(o: Scalar, p: Scalar, k: Scalar):
    return pu.create_M_matrix(o, p, k)


def default_order__spec(o, p, k):
    """the default order is rpy"""
    return _kappa(k) @ _phi(p) @ _omega(o)


def orders__code(o: Scalar, p: Scalar, k: Scalar):
    return [pu.create_M_matrix(o, p, k, order=x) for x in ('rpy', 'ryp', 'pry', 'pyr', 'yrp', 'ypr')]


def orders__spec(o, p, k):
    """each named order is the product of the three elementary rotations in that order"""
    return [_kappa(k) @ _phi(p) @ _omega(o), _phi(p) @ _kappa(k) @ _omega(o), _kappa(k) @ _omega(o) @ _phi(p),
            _omega(o) @ _kappa(k) @ _phi(p), _phi(p) @ _omega(o) @ _kappa(k), _omega(o) @ _phi(p) @ _kappa(k)]


def orthonormal__code(o: Scalar, p: Scalar, k: Scalar):
    out = []
    for x in ('rpy', 'ryp', 'pry', 'pyr', 'yrp', 'ypr'):
        m = pu.create_M_matrix(o, p, k, order=x)
        out.append(m @ m.transpose())
    return out


def orthonormal__spec(o, p, k):
    """every matrix is orthonormal"""
    return [np.eye(3) for _ in range(6)]


INCLUDE = ['P41.rotations']
