"""spectra."""
import numpy as np
from resippy.spectral.spectrum import Spectrum


def fields__code(w: Arr(1), d: Arr(1), f: Arr(1), wu: Val, du: Val, nd: Scalar, name: Str):
    s = Spectrum()
    first = (s.get_wavelengths(), s.get_fwhm(), s.get_spectrum_units(), s.get_wavelength_units(), s.get_nodata_val(), s.get_fname())
    s.set_wavelengths(w)
    s.set_spectral_data(d)
    s.set_fwhm(f)
    s.set_wavelength_units(wu)
    s.set_spectrum_units(du)
    s.set_nodata_val(nd)
    s.set_fname(name)
    return (first, s.get_wavelengths(), s.get_spectral_data(nodata_to_nan=False), s.get_fwhm(), s.get_wavelength_units(), s.get_spectrum_units(),
            s.get_nodata_val(), s.get_fname())


def fields__spec(w, d, f, wu, du, nd, name):
    """every property comes back from its own getter; nothing is set before it is given"""
    return (None, None, None, None, None, None), w, d, f, wu, du, nd, name


def nodata__code(d: Arr(1), nd: Scalar):
    s = Spectrum()
    s.set_spectral_data(d)
    s.set_nodata_val(nd)
    a = s.get_spectral_data()
    return a, s.get_spectral_data(nodata_to_nan=False), d


def nodata__spec(d, nd):
    """nodata samples read as NaN, the stored values and the caller's array do not change"""
    return np.where(d == nd, np.nan, d), d, d


def units__code(w: Arr(1), d: Arr(1), f: Arr(1), wu: Val, du: Val, nd: Scalar):
    s = Spectrum()
    s.set_wavelengths(w)
    s.set_spectral_data(d)
    s.set_fwhm(f)
    s.set_wavelength_units(wu)
    s.set_spectrum_units(du)
    s.set_nodata_val(nd)
    return s.get_wavelengths(with_units=True), s.get_fwhm(with_units=True), s.get_spectral_data(with_units=True), s.get_spectral_data(False, True)


def units__spec(w, d, f, wu, du, nd):
    """wavelengths and widths carry the wavelength unit, values the spectrum unit"""
    return w * wu, f * wu, np.where(d == nd, np.nan, d) * du, d * du


def resample__code(w: Arr(1), d: Arr(1), wu: Val, du: Val, w1: Arr(1), d1: Arr(1), w2: Arr(1), d2: Arr(1), c: Arr(1)):
    s = Spectrum()
    s.set_wavelengths(w)
    s.set_spectral_data(d)
    s.set_wavelength_units(wu)
    s.set_spectrum_units(du)
    a = Spectrum()
    a.set_wavelengths(w1)
    a.set_spectral_data(d1)
    b = Spectrum()
    b.set_wavelengths(w2)
    b.set_spectral_data(d2)
    r = s.resample_spectrum_direct([a, b], c)
    return (r.get_wavelengths(), r.get_spectral_data(False), r.get_wavelength_units(), r.get_spectrum_units(), s.get_wavelengths(), s.get_spectral_data(False),
            a.get_spectral_data(False), b.get_spectral_data(False))


def _band(w, d, wr, dr):
    r = np.interp(w, wr, np.where(dr == None, np.nan, dr), left=0, right=0)
    return np.trapz(np.where(d == None, np.nan, d) * r, w) / np.trapz(r, w)


def resample__spec(w, d, wu, du, w1, d1, w2, d2, c):
    """band k is the response-weighted mean of the spectrum over its own wavelengths; units are kept, inputs are not changed"""
    return c, np.array([_band(w, d, w1, d1), _band(w, d, w2, d2)]), wu, du, w, d, d1, d2


def resample_any__code(w: Arr(1), d: Arr(1), rsr: Val, c: Arr(1)):
    s = Spectrum()
    s.set_wavelengths(w)
    s.set_spectral_data(d)
    s.set_nodata_val(-1)
    r = s.resample_spectrum_direct(rsr, c)
    return r.get_wavelengths(), r.get_spectral_data(False)


def resample_any__spec(w, d, rsr, c):
    """one value per response function, in their order"""
    out = []
    for x in rsr:
        r = np.interp(w, x.get_wavelengths(), x.get_spectral_data(), left=0, right=0)
        out.append(np.trapz(np.where(d == -1, np.nan, d) * r, w) / np.trapz(r, w))
    return c, np.array(out)


INCLUDE = ['P41.spectrum']
