"""Regenerate sa/data/lib.json from the installed libraries: /opt/venv/bin/python tools/libtable.py  (names and signatures only; never run by a check)."""
import ast
import builtins
import importlib
import inspect
import json
import os
import sys
import types
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo/resippy'
mods = set()
dotted = set()
for dp, dn, fn in os.walk(REPO):
    for f in fn:
        if f.endswith('.py'):
            t = ast.parse(open(os.path.join(dp, f)).read())
            for n in ast.walk(t):
                if isinstance(n, ast.Import):
                    mods.update(a.name for a in n.names)
                elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                    mods.add(n.module)
mods = {m for m in mods if not m.startswith('resippy')}
mods |= {'numpy.linalg', 'numpy.random', 'numpy.fft', 'numpy.ma', 'osgeo.gdal', 'osgeo.ogr', 'osgeo.osr', 'os.path', 'scipy.interpolate', 'scipy.ndimage', 'scipy.spatial',
         'scipy.stats', 'scipy.linalg', 'PIL.Image', 'shapely', 'matplotlib.pyplot', 'matplotlib', 'json', 'csv', 're', 'glob', 'struct', 'itertools', 'functools', 'collections',
         'operator', 'datetime', 'time', 'math', 'copy', 'tempfile', 'shutil', 'sys', 'io', 'bisect', 'warnings', 'logging', 'uuid', 'numbers', 'six', 'abc', 'typing', 'string',
         'random', 'zipfile', 'subprocess', 'pickle', 'contextlib', 'codecs', 'pathlib', 'statistics', 'calendar', 'cmath', 'decimal', 'fractions', 'hashlib', 'textwrap'}
for m in list(mods):
    while '.' in m:
        m = m.rsplit('.', 1)[0]
        mods.add(m)
table, sigs, universe, absent = {}, {}, set(), []


def sig(f):
    try:
        s = inspect.signature(f)
    except (ValueError, TypeError):
        return None
    lo = hi = 0
    kws, varkw, need = [], False, []
    for p in s.parameters.values():
        if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
            if hi >= 0:
                hi += 1
            if p.default is p.empty:
                lo += 1
        elif p.kind == p.VAR_POSITIONAL:
            hi = -1
        elif p.kind == p.VAR_KEYWORD:
            varkw = True
        if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY):
            kws.append(p.name)
    return [lo, hi, kws, varkw]


def walk_class(c):
    universe.update(dir(c))


for m in sorted(mods):
    try:
        mod = importlib.import_module(m)
        if m in ('osgeo',):
            import pkgutil
            for i in pkgutil.iter_modules(mod.__path__):
                try:
                    importlib.import_module(m + '.' + i.name)
                except Exception:
                    pass
    except Exception as e:
        absent.append(m)
        continue
    d = {}
    for n in dir(mod):
        try:
            v = getattr(mod, n)
        except Exception:
            d[n] = 'v'
            continue
        if isinstance(v, types.ModuleType):
            d[n] = 'm:' + v.__name__
        elif inspect.isclass(v):
            d[n] = 'c'
            walk_class(v)
            s = sig(v)
            if s and not n.startswith('_'):
                sigs[m + '.' + n] = s
        elif callable(v):
            d[n] = 'f'
            s = sig(v)
            if s and not n.startswith('_'):
                sigs[m + '.' + n] = s
        else:
            d[n] = 'v'
            universe.update(dir(type(v)))
    table[m] = d
for n in dir(builtins):
    v = getattr(builtins, n)
    if inspect.isclass(v):
        universe.update(dir(v))
for m in table:
    universe.update(table[m])
import pint, exifread, PIL.Image, csv, datetime, re
u = pint.UnitRegistry()
for v in (u, u.meter, 1 * u.meter, re.compile('a'), re.match('a', 'a'), csv.reader([]), open(os.devnull), open(os.devnull, 'rb'), PIL.Image.new('L', (1, 1)), datetime.datetime.now()):
    universe.update(dir(v))
try:
    from exifread.classes import IfdTag
    universe.update(dir(IfdTag('a', 1, 1, [], 0, 0)))
except Exception as e:
    print('exif', e)
try:
    from exifread.utils import Ratio
    universe.update(dir(Ratio(1, 2)))
except Exception as e:
    print('ratio', e)
import numpy as np
universe.update(set(dir(np.finfo(float))) | set(dir(np.iinfo(int))))
# dependencies that are not installed here: the attributes their documentation names
universe.update('predict predict_generator fit fit_generator evaluate compile summary layers input output inputs outputs trainable load_weights save_weights save class_indices '
                'filenames filepaths batch_size classes samples gpu_options allow_growth execute arrays metadata log validate pipeline set_status'.split())
universe.update(dir(np.zeros(2)), )
universe.update(dir(np.zeros(2).flat)); universe.update(dir(np.dtype(float))); universe.update(dir(np.float64(1))); universe.update(dir(np.add))
units = sorted(k for k in u._units if k.isidentifier())
prefixes = sorted((k for k in u._prefixes if k), key=len, reverse=True)
json.dump({'absent': absent, 'units': units, 'prefixes': prefixes, 'modules': table, 'signatures': sigs, 'attributes': sorted(x for x in universe if not x.startswith('_'))},
          open(os.path.join(HERE, 'sa', 'data', 'lib.json'), 'w'), indent=0, sort_keys=True)
print(len(table), 'modules', len(sigs), 'signatures', len(universe), 'attributes; absent', absent)
