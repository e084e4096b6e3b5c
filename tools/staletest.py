"""The remembered-value rule on small classes: BAD ones must be reported, GOOD ones must not."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import run, stale
from sa.loader import ModuleInfo
from sa.resolve import Resolver

HEAD = '''
import numpy as np
import functools
from functools import lru_cache, cached_property
'''
BAD = {
'plain': '''
class C:
    def __init__(self):
        self.a = 1; self._m = None
    def set_a(self, a):
        self.a = a
    def get(self):
        if self._m is None:
            self._m = self.a * 2
        return self._m
''',
'early return': '''
class C:
    _m = None
    def __init__(self, a):
        self.a = a
        self._m = None
    def set_a(self, a):
        self.a = a
    def get(self):
        if self._m is not None:
            return self._m
        v = self.a * 2
        self._m = v
        return v
''',
'argument': '''
class C:
    def __init__(self):
        self._m = None
    def get(self, band):
        if self._m is None:
            self._m = np.sin(band)
        return self._m
''',
'key misses argument': '''
class C:
    def __init__(self):
        self._m = {}
    def get(self, x, band):
        if band not in self._m:
            self._m[band] = x * band
        return self._m[band]
''',
'module dict': '''
_CACHE = {}
def get(x, band):
    k = (band, x.shape)
    if k not in _CACHE:
        _CACHE[k] = x * band
    return _CACHE[k]
''',
'get idiom': '''
_CACHE = {}
def get(x, band):
    r = _CACHE.get(band)
    if r is None:
        r = x * band
        _CACHE[band] = r
    return r
''',
'file': '''
_CACHE = {}
def read(fname):
    if fname not in _CACHE:
        with open(fname) as f:
            _CACHE[fname] = f.read()
    return _CACHE[fname]
''',
'lru file': '''
@lru_cache(maxsize=None)
def read(fname):
    return np.fromfile(fname)
''',
'lru method': '''
class C:
    def __init__(self):
        self.a = 1
    def set_a(self, a):
        self.a = a
    @lru_cache()
    def get(self, x):
        return self.a * x
''',
'default': '''
def get(x, band, memo={}):
    if band in memo:
        return memo[band]
    memo[band] = x * band
    return memo[band]
''',
'ensure': '''
class C:
    def __init__(self):
        self.a = 1; self._m = None
    def set_a(self, a):
        self.a = a
    def _ensure(self):
        if self._m is None:
            self._m = self.a * 2
    def get(self):
        self._ensure()
        return self._m
''',
'in place': '''
class C:
    def __init__(self):
        self.a = np.zeros(3); self._m = None
    def put(self, i, v):
        self.a[i] = v
    def total(self):
        if self._m is None:
            self._m = np.sum(self.a)
        return self._m
''',
'last key': '''
class C:
    def __init__(self):
        self._k = None; self._m = None
    def get(self, x, y):
        if self._k != x:
            self._m = x + y
            self._k = x
        return self._m
''',
'try': '''
class C:
    def __init__(self):
        self._m = {}
    def get(self, x, y):
        try:
            return self._m[x]
        except KeyError:
            self._m[x] = x + y
            return self._m[x]
''',
'hasattr': '''
class C:
    def set_a(self, a):
        self.a = a
    def get(self):
        if not hasattr(self, '_m'):
            self._m = self.a * 2
        return self._m
''',
'helper': '''
class C:
    def __init__(self):
        self.a = 1; self._m = None
    def set_a(self, a):
        self.a = a
    def _double(self):
        return self.a * 2
    def get(self):
        if self._m is None:
            self._m = self._double()
        return self._m
''',
'global': '''
_LAST = None
def get(x):
    global _LAST
    if _LAST is None:
        _LAST = x * 2
    return _LAST
''',
'subclass': '''
class B:
    def __init__(self):
        self.a = 1; self._m = None
    def get(self):
        if self._m is None:
            self._m = self.a * 2
        return self._m
class C(B):
    def set_a(self, a):
        self.a = a
''',
'cached_property': '''
class C:
    def __init__(self):
        self.a = 1
    def set_a(self, a):
        self.a = a
    @cached_property
    def twice(self):
        return self.a * 2
''',
'function attribute': '''
def get(x, y):
    if x not in get.memo:
        get.memo[x] = x + y
    return get.memo[x]
get.memo = {}
''',
'or': '''
class C:
    def __init__(self):
        self.a = 1; self._m = None
    def set_a(self, a):
        self.a = a
    def get(self):
        self._m = self._m or self.a * 2
        return self._m
''',
'rounded key': '''
class C:
    def __init__(self):
        self._m = {}
    def get(self, x):
        k = round(x, 3)
        if k not in self._m:
            self._m[k] = np.sin(x)
        return self._m[k]
''',
}
GOOD = {
'cleared': '''
class C:
    def __init__(self):
        self.a = 1; self._m = None
    def set_a(self, a):
        self.a = a
        self._m = None
    def get(self):
        if self._m is None:
            self._m = self.a * 2
        return self._m
''',
'cleared by helper': '''
class C:
    def __init__(self):
        self.a = 1; self._m = None
    def _reset(self):
        self._m = None
    def set_a(self, a):
        self._reset()
        self.a = a
    def get(self):
        if self._m is None:
            self._m = self.a * 2
        return self._m
''',
'never changed': '''
class C:
    def __init__(self, a):
        self.a = a; self._m = None
    def get(self):
        if self._m is None:
            self._m = self.a * 2
        return self._m
''',
'full key': '''
class C:
    def __init__(self):
        self._m = {}
    def get(self, x, band):
        k = (x.tobytes(), band)
        if k not in self._m:
            self._m[k] = x * band
        return self._m[k]
''',
'module full key': '''
_CACHE = {}
def get(x, band):
    if (x, band) not in _CACHE:
        _CACHE[(x, band)] = x * band
    return _CACHE[x, band]
''',
'lru pure': '''
@lru_cache(maxsize=None)
def get(x, y):
    return x + y
''',
'state machine': '''
class C:
    def __init__(self):
        self.v = None
    def set_v(self, v):
        if self.v is None:
            self.v = v
    def get(self):
        return self.v
''',
'assigned first': '''
class C:
    def __init__(self):
        self.nodata = None; self.data = None
    def set_data(self, d):
        self.data = d
    def set_nodata(self, v):
        self.nodata = v
        if self.nodata is not None:
            if self.data is not None:
                self.data = self.data.astype(float)
                self.data[self.data == v] = np.nan
''',
'lazy file': '''
class C:
    def __init__(self, f):
        self._f = f; self._d = None
    def data(self):
        if self._d is None:
            self._d = np.fromfile(self._f)
        return self._d
''',
'accumulate': '''
class C:
    def __init__(self):
        self.items = []
    def add(self, x):
        if x not in self.items:
            self.items.append(x)
    def update(self, i, x):
        if i < len(self.items):
            self.items[i] = x
            return True
        return False
''',
'range check': '''
class C:
    def __init__(self):
        self.items = []
    def set_item(self, i, x):
        if i >= len(self.items):
            raise IndexError(i)
        self.items[i] = x
''',
'default argument none': '''
def get(x, opts={}):
    if 'a' in opts:
        return opts['a'] + x
    return x
''',
'last key full': '''
class C:
    def __init__(self):
        self._k = None; self._m = None
    def get(self, x, y):
        if self._k != (x, y):
            self._m = x + y
            self._k = (x, y)
        return self._m
''',
'validity flag': '''
class C:
    def __init__(self):
        self.a = 1; self._m = None; self._ok = False
    def set_a(self, a):
        self.a = a
        self._ok = False
    def get(self):
        if not self._ok:
            self._m = self.a * 2
            self._ok = True
        return self._m
''',
'replace if longer': '''
class C:
    def __init__(self):
        self.best = None
    def offer(self, x):
        if self.best is None or x > self.best:
            self.best = x
        return x
''',
'running maximum': '''
class C:
    def __init__(self):
        self.best = 0
    def offer(self, x):
        if x > self.best:
            self.best = x
        return self.best
''',
'set twice': '''
class C:
    def __init__(self):
        self.d = {}
    def put(self, k, v):
        if k in self.d:
            print('replacing')
        self.d[k] = v
        return self.d
''',
'registry': '''
_R = {}
def register(name, f):
    if name in _R:
        raise ValueError(name)
    _R[name] = f
''',
'swap': '''
class C:
    def __init__(self):
        self.a = None
    def set_a(self, a):
        if a is not self.a:
            self.a = a
        return self
''',
'setter clears through super': '''
class B:
    def __init__(self):
        self.p = None; self._m = None
    def set_p(self, p):
        self.p = p
        self._m = None
class C(B):
    def set_p(self, p):
        super().set_p(p)
    def get(self):
        if self._m is None:
            self._m = str(self.p)
        return self._m
''',
'open handle': '''
class C:
    def __init__(self):
        self.f = None
    def open(self, name):
        if self.f is None:
            self.f = open(name)
    def close(self):
        self.f = None
''',
}


def main():
    bad = 0
    for kind, d in (('BAD', BAD), ('GOOD', GOOD)):
        for name, src in d.items():
            P = run.load()
            for m in [m for m in P.modules if m.startswith('resippy.')]:
                del P.modules[m]
            P.modules['resippy.fake'] = ModuleInfo('resippy.fake', '/x/resippy/fake.py', HEAD + src)
            n, o = stale.findings(Resolver(P))
            if bool(o) != (kind == 'BAD'):
                bad += 1
                print(kind, name, [(w, why) for f, w, x, why in o])
    print('%d examples, %d wrong' % (len(BAD) + len(GOOD), bad))


main()
