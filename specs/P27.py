"""spectral library readers."""
import csv
import glob
import os
import numpy as np
from resippy.utils.units import ureg
from resippy.utils.units import unit_constants
from resippy.spectral.spectrum import Spectrum
from resippy.spectral.spectrum_factories.usgs.ascii.usgs_ascii_spectral_factory import UsgsAsciiSpectralFactory
from resippy.spectral.spectrum_factories.SVC.ascii.svc_spectral_factory import SvcAsciiFileFactory
from resippy.spectral.spectrum_factories.csv.ascii.csv_spectral_factory import CsvAsciiFileFactory
from resippy.spectral.spectrum_factories.envi.ascii.envi_ascii_plot_file_factory import EnviAsciiPlotFileFactory


def _all(s):
    return (s.get_wavelengths(), s.get_spectral_data(False), s.get_fwhm(), s.get_wavelength_units(), s.get_spectrum_units(), s.get_nodata_val(), s.get_fname())


def _column(fn):
    with open(fn) as f:
        lines = f.readlines()
    return np.array([float(x.strip()) for x in lines[1:]])


def usgs__code(fn: Str):
    return _all(UsgsAsciiSpectralFactory.from_ascii_file(fn))


def usgs__spec(fn):
    """values from the file itself, wavelengths and widths from the library folder above it, micrometres, the USGS nodata value"""
    base = os.path.dirname(os.path.dirname(fn))
    w = _column(UsgsAsciiSpectralFactory.get_wavelengths_fname(base))
    b = _column(UsgsAsciiSpectralFactory.get_fwhm_fname(base))
    return w, _column(fn), b, ureg.microns, unit_constants.reflectance_zero_to_one, -1.23e34, fn


def usgs_files__code(base: Str):
    return UsgsAsciiSpectralFactory.get_wavelengths_fname(base), UsgsAsciiSpectralFactory.get_fwhm_fname(base)


def usgs_files__spec(base):
    """the first text file whose name tells its content"""
    def waves():
        for f in glob.glob(base + '/*.txt'):
            n = os.path.basename(f).lower()
            if 'wavelength' in n or 'waves' in n:
                return f

    def width():
        for f in glob.glob(base + '/*.txt'):
            n = os.path.basename(f).lower()
            if 'resolution' in n or 'bandpass' in n:
                return f
    return waves(), width()


def usgs_columns__code(fn: Str):
    return UsgsAsciiSpectralFactory.read_ascii_wavelengths(fn), UsgsAsciiSpectralFactory.read_ascii_fwhm(fn)


def usgs_columns__spec(fn):
    """one number per line after the title"""
    return _column(fn), _column(fn)


def svc__code(fn: Str):
    return _all(SvcAsciiFileFactory.from_sig_file(fn))


def svc__spec(fn):
    """lines after the data marker: first column the wavelength, last one the reflectance in percent"""
    with open(fn) as f:
        lines = f.readlines()
    k = 0
    for i in range(len(lines)):
        k += 1
        if lines[i].startswith('data'):
            break
    w = []
    d = []
    while k < len(lines):
        a, x, y, b = lines[k].split()
        k += 1
        w.append(float(a))
        d.append(float(b) / 100)
    return np.array(w), np.array(d), None, 'nanometers', 'reflectance_0-1', None, None


def csv_file__code(fn: Str, sep: Str, skip: Scalar, wi: Scalar, ri: Scalar):
    return _all(CsvAsciiFileFactory.from_csv_file(fn, sep, skip, wi, ri))


def csv_file__spec(fn, sep, skip, wi, ri):
    """the requested columns of every row after the header, split at the requested delimiter"""
    w = []
    d = []
    with open(fn) as f:
        rows = csv.reader(f, delimiter=sep)
        for i in range(skip):
            next(rows)
        for row in rows:
            w.append(float(row[wi]))
            d.append(float(row[ri]))
    return np.array(w), np.array(d), None, 'nanometers', 'reflectance_0-1', None, None


def csv_defaults__code(fn: Str):
    return _all(CsvAsciiFileFactory.from_csv_file(fn))


def csv_defaults__spec(fn):
    """comma separated, one header line, wavelength before value"""
    return _all(CsvAsciiFileFactory.from_csv_file(fn, ',', 1, 0, 1))


def envi_plot__code(fn: Str):
    return _all(EnviAsciiPlotFileFactory.from_ascii_file(fn))


def envi_plot__spec(fn):
    """two columns after the three header lines: wavelength and value"""
    with open(fn) as f:
        lines = f.readlines()
    w = []
    d = []
    for t in lines[3:]:
        a, b = t.split()
        w.append(float(a))
        d.append(float(b))
    return np.array(w), np.array(d), None, 'nanometers', 'reflectance_0-1', None, None


INCLUDE = ['P26.fields', 'P26.units', 'P26.nodata']
