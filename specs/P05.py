"""omega/phi/kappa recovered from a matrix rebuild that matrix."""
import numpy as np
from resippy.utils import photogrammetry_utils as pu


def angles__code(m: Mat(3, 3)):
    return pu.solve_for_omega_phi_kappa(m)


def angles__spec(m):
    """sin(phi) = m31; omega and kappa from the cosines m33/cos(phi), m11/cos(phi), signed so that -sin(omega)cos(phi) = m32, -cos(phi)sin(kappa) = m21"""
    phi = np.arcsin(m[2, 0])
    omega = np.arccos(m[2, 2] / np.cos(phi))
    kappa = np.arccos(m[0, 0] / np.cos(phi))
    return (-omega if m[2, 1] > 0 else omega), phi, (-kappa if m[1, 0] > 0 else kappa)


def angles__spec2(m):
    return np.arctan2(-m[2, 1], m[2, 2]), np.arcsin(m[2, 0]), np.arctan2(-m[1, 0], m[0, 0])


def boresight__code(a: Mat(3, 3), b: Mat(3, 3)):
    return a @ pu.solve_for_boresight_angle_offsets(a, b)


def boresight__spec(a, b):
    """rough @ offsets = ideal"""
    return a @ (np.linalg.inv(a) @ b)
