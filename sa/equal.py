"""Equality of two value graphs: normal-form comparison, Shannon expansion on gates."""
import itertools
import re
from .terms import *
from .structs import tup2arr, subst_top_atoms, mk_ufunc
from . import terms as _t
from . import structs as _s
from . import ext

# general recurrences and functions that are another way to write something the specification may
# have written differently: a difference where only one side uses them is not decided
LOOPY = {'sum', 'concat', 'mu', 'carry', 'first', 'mapcat', 'exists', 'while'}
REFORM = set(('numpy.' + x) for x in '''einsum tensordot inner vdot kron apply_along_axis argwhere flatnonzero searchsorted digitize select choose
piecewise fromiter fromfunction broadcast_to broadcast_arrays nditer ndenumerate ndindex cumsum cumprod diff polyval interp lexsort take take_along_axis
put_along_axis compress extract ix_ vectorize frompyfunc isin unique histogram bincount convolve gradient linalg.multi_dot linalg.solve
ravel_multi_index array_split split hsplit vsplit dsplit block pad roll atleast_1d atleast_2d atleast_3d ediff1d trapz ptp copyto place putmask
resize lib.stride_tricks.as_strided lib.stride_tricks.sliding_window_view add.reduce maximum.reduce minimum.reduce logical_or.reduce logical_and.reduce
maximum.accumulate minimum.accumulate argmax argmin nonzero where count_nonzero fromstring genfromtxt loadtxt repeat tile meshgrid append insert
delete outer concatenate stack dstack hstack vstack column_stack mgrid ogrid indices setdiff1d intersect1d union1d linspace'''.split())
JOINS = {'numpy.append', 'numpy.insert', 'numpy.concatenate', 'numpy.tile', 'numpy.repeat'}
REFORM_PKG = ('itertools.', 'functools.', 'operator.', 're.', 'csv.', 'pandas.', 'struct.', 'collections.', 'bisect.', 'heapq.', 'string.', 'textwrap.', 'datetime.',
              'calendar.', 'time.', 'math.', 'statistics.', 'pathlib.', 'scipy.', 'contextlib.', 'tempfile.', 'io.', 'sys.')
REFORM_METH = {'.partition', '.rpartition', '.splitlines', '.translate', '.format', '.format_map', '.zfill', '.ljust', '.rjust', '.expandtabs', '.casefold',
               '.removeprefix', '.removesuffix', '.take', '.put', '.choose', '.compress', '.nonzero', '.tobytes', '.read_text', '.total_seconds', '.timestamp'}


def external_calls(t):
    """{method: {(positional count, keywords): calls}}"""
    acc, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'call' and isinstance(x.args[0], str) and len(x.args) > 2 and isinstance(x.args[2], tuple) and isinstance(x.args[1], tuple):
            acc.setdefault(x.args[0], {}).setdefault((len(x.args[1]), tuple(k for k, _ in x.args[2])), []).append(x)
        st.extend(_t._iter_terms(x.args))
    return acc


def by_position(a, b):
    """both values, with arguments that one of them passes by keyword and the other by position passed by keyword in both"""
    ca, cb = external_calls(a), external_calls(b)
    names = {}
    for n in set(ca) & set(cb):
        for f, xs in ca[n].items():
            for g, ys in cb[n].items():
                if f[0] + len(f[1]) != g[0] + len(g[1]) or f[0] == g[0]:
                    continue
                lo, hi = (f, g) if f[0] < g[0] else (g, f)
                new = set(lo[1]) - set(hi[1])
                if len(new) != hi[0] - lo[0] or set(hi[1]) - set(lo[1]):
                    continue
                p, q = (xs[0], ys[0]) if f[0] < g[0] else (ys[0], xs[0])
                kw = dict(p.args[2])
                order = []
                for v in q.args[1][lo[0]:]:
                    k = [k for k in sorted(new - set(order)) if kw[k] is v]
                    if not k and len(new) == 1:
                        k = list(new)
                    order.extend(k[:1])
                if len(order) == len(new):
                    names.setdefault(n, {})[lo[0]] = order
    if not names:
        return a, b

    def go(t):
        if not t.args or t.op in ('num', 'str', 'bool', 'none', 'sym', 'bv', 'top', 'ext', 'undef'):
            return t
        r = rebuild(t, go)
        if r.op == 'call' and r.args[0] in names:
            for lo, order in names[r.args[0]].items():
                if lo < len(r.args[1]) <= lo + len(order) and not set(order) & set(k for k, _ in r.args[2]):
                    more = list(zip(order, r.args[1][lo:]))
                    return mk('call', r.args[0], r.args[1][:lo], tuple(sorted(list(r.args[2]) + more)))
        return r
    return go(a), go(b)


def wide(t):
    """t without its conversions to double precision"""
    if not t.args or t.op in ('num', 'str', 'bool', 'none', 'sym', 'bv', 'top', 'ext', 'undef'):
        return t
    if is_wide(t):
        return wide(t.args[0])
    return rebuild(t, wide)


def whole(t):
    """t without conversions to int of what has been rounded already"""
    if not t.args or t.op in ('num', 'str', 'bool', 'none', 'sym', 'bv', 'top', 'ext', 'undef'):
        return t
    if is_whole(t):
        return whole(t.args[1][0])
    return rebuild(t, whole)


LEAVES = ('num', 'str', 'bool', 'none', 'sym', 'bv', 'top', 'ext', 'undef')


def rewriting(test, to):
    def go(t):
        if not t.args or t.op in LEAVES:
            return t
        return go(to(t)) if test(t) else rebuild(t, go)
    return go


def is_blank(t):
    return t.op == 'zeros' and t.args[0].op == 'num'


def is_keys(t):
    return t.op == 'map' and t.args[2] is TRUE and t.args[1].op == 'call' and t.args[1].args[0] == '.key' and t.args[1].args[1][1] is t.args[3] \
        and t.args[0] is _t.mk('index', mk('shape', t.args[1].args[1][0]), (_t.num(0),))


def is_float(t):
    return t.op == 'call' and t.args[0] == 'float' and len(t.args[1]) == 1 and not t.args[2] and t.args[1][0].op == 'attr'


def dimensions_asked(t):
    """{array: k} for every array of which t asks whether it has k dimensions, and no other number"""
    out, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('zero', 'eq'):
            n = _t.sub(x.args[0], x.args[1]) if x.op == 'eq' else x.args[0]
            if n.op == 'poly' and len(n.args[0]) == 2:
                p = _t.to_poly(n)
                k = p.get((), 0)
                m = [m for m in p if m][0]
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'call' and m[0][0].args[0] == 'ndim' and (-k / p[m]).denominator == 1:
                    out.setdefault(m[0][0].args[1][0], set()).add(int(-k / p[m]))
        st.extend(_t._iter_terms(x.args))
    return dict((a, list(v)[0]) for a, v in out.items() if len(v) == 1)


def spelled_out(t, dims):
    """t with positions counted from the end of arrays of so many dimensions counted from the start"""
    def test(x):
        if x.op != 'index':
            return False
        b, items = x.args
        if b.op == 'shape' and b.args[0] in dims and len(items) == 1 and _t.is_int(items[0]):
            return -dims[b.args[0]] <= _t.intval(items[0]) < 0
        return b in dims and _s.ELL in items and items.count(_s.ELL) == 1 and len(items) - 1 <= dims[b] and _t.NONE not in items

    def to(x):
        b, items = x.args
        if b.op == 'shape' and b.args[0] in dims:
            return _t.mk('index', b, (_t.num(_t.intval(items[0]) + dims[b.args[0]]),))
        k = items.index(_s.ELL)
        return _s.index_items(b, items[:k] + (_s.FULL,) * (dims[b] - len(items) + 1) + items[k + 1:])
    return rewriting(test, to)(t)


flat = rewriting(is_blank, lambda t: t.args[0])
no_keys = rewriting(is_keys, lambda t: t.args[1].args[1][0])
no_float = rewriting(is_float, lambda t: t.args[1][0])


def is_whole(t):
    return t.op == 'call' and t.args[0] == 'int' and len(t.args[1]) == 1 and t.args[1][0].op == 'ufunc' and t.args[1][0].args[0] in ('floor', 'ceil', 'rint', 'trunc')


def is_wide(t):
    return t.op == 'astype' and t.args[1].op == 'str' and t.args[1].args[0] == 'dtype:float64'


def reform_ops(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in LOOPY:
            acc.add(x.op)
        elif x.op == 'ufunc' and x.args[0] in ('arctan2', 'hypot'):
            acc.add(x.args[0])
        elif x.op == 'call':
            n = x.args[0]
            if isinstance(n, str):
                if n in REFORM or n.startswith(REFORM_PKG) or n in REFORM_METH:
                    acc.add(n)
        st.extend(_t._iter_terms(x.args))
    return acc


WORD_OPS = {'ite': 'if', 'bdd': 'if', 'where': 'if', 'map': 'map', 'mapcat': 'map', 'sum': 'sum', 'foreach': 'foreach', 'store': 'store', 'storemap': 'store',
            'stack': 'stack', 'mu': 'loop', 'carry': 'loop', 'while': 'loop', 'first': 'find', 'exists': 'find', 'matmul': 'matmul', 'inner': 'inner', 'rowdot': 'rowdot'}
KIN = {}
for _g in ('mean nanmean average median nanmedian ma.mean ma.median', 'sum nansum', 'std nanstd var', 'min max nanmin nanmax amin amax', 'all any', 'argmin argmax nanargmin nanargmax',
           'linalg.inv linalg.pinv', 'cov corrcoef ma.cov', 'percentile quantile nanpercentile'):
    for _n in _g.split():
        KIN['numpy.' + _n] = 'numpy.' + _g.split()[0]
for _g in ('floor ceil rint trunc', 'sin cos tan', 'arcsin arccos arctan arctan2', 'exp log log10 log2', 'maximum minimum fmax fmin'):
    for _n in _g.split():
        KIN['~' + _n] = '~' + _g.split()[0]
for _g in ('.strip .lstrip .rstrip', '.lower .upper .title .capitalize', '.split .rsplit', '.find .rfind .index', '.startswith .endswith', 'sorted list tuple', 'min max',
           'any all'):
    for _n in _g.split():
        KIN[_n] = _g.split()[0]
OWN = ('numpy.', 'scipy.') + REFORM_PKG


def words(t):
    """the vocabulary a value is expressed in: loops, folds, selections, and the general-purpose functions it applies"""
    acc, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        o = x.op
        if o in WORD_OPS:
            acc.add(WORD_OPS[o])
        elif o == 'call' and isinstance(x.args[0], str):
            n = x.args[0]
            if n in ('.strip', '.lstrip', '.rstrip') and len(x.args[1]) == 1:
                pass        # white space cut off
            elif n.startswith(OWN) or '.' not in n[1:]:
                acc.add(KIN.get(n, n))
        elif o == 'ufunc':
            n = '~' + x.args[0]
            acc.add(KIN.get(n, n))
        elif o == 'astype':
            acc.add('~floor')
        elif o == 'pos' and any(a.op == 'str' for a in _t._iter_terms(x.args[0].args)):
            acc.add('text order')
        elif o == 'in' and x.args[1].op in ('str', 'tuple'):
            acc.add('in')
        st.extend(_t._iter_terms(x.args))
    return acc


def heads(t):
    """the functions applied in a value: (kind, name)"""
    acc, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            if x.op in ('call', 'ufunc') and isinstance(x.args[0], str):
                acc.add((x.op, x.args[0]))
            st.extend(_t._iter_terms(x.args))
    return acc


def loops_of(t):
    r, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'mu':
            r[x] = (x.args[0].op if isinstance(x.args[0], T) else str(x.args[0]), len(x.args[1]))
        st.extend(_t._iter_terms(x.args))
    return r


def other_loops(x, y):
    """the two sides run general loops of different kinds or different numbers of loop variables"""
    a, b = loops_of(x), loops_of(y)
    if not a or not b:
        return False
    p = sorted(set(v for k, v in a.items() if k not in b))
    q = sorted(set(v for k, v in b.items() if k not in a))
    return p != q


class Result(object):
    def __init__(self):
        self.diffs = []        # (path, impl term, spec term)
        self.undecided = []
        self.leaves = 0


def is_any(t):
    return t.op == 'any' or (t.op == 'obj' and t.args[0] == 'object') or (t.op == 'sym' and t.args[0] == 'ANY') or (t.op == 'ext' and t.args[0].endswith('.ANY'))


def is_eta(t, base):
    """(x[0], x[1], ..) is the sequence x"""
    return len(t.args) > 0 and all(e.op == 'index' and e.args[0] is base and e.args[1] == (_t.num(k),) for k, e in enumerate(t.args))


def only_raises(t):
    return t.op == 'raise' or t.op in ('ite', 'bdd') and all(only_raises(x) for x in t.args[1:])


def relevel(t):
    """the same graph with every bound variable numbered from its (already renumbered) scope, innermost first"""
    memo = {}

    def go(x):
        if x.mbv == 0:
            return x
        r = memo.get(x)
        if r is None:
            r = memo[x] = go1(x)
        return r

    def scoped(parts, bvs):
        """parts (nested tuples of terms) under the binders bvs, renumbered: (parts, binders)"""
        syms = [_t.fresh_sym('$r', scalar=True, nonnull=True) for _ in bvs]
        m = dict(zip(bvs, syms))
        c = {}
        q = _t._maptup(parts, lambda z: go(_t._subst(z, m, c)))
        lvl = max([z.mbv for z in _t._iter_terms(q)] + [0])
        new = [mk('bv', lvl + 1 + k) for k in range(len(bvs))]
        m2, c2 = dict(zip(syms, new)), {}
        return _t._maptup(q, lambda z: _t._subst(z, m2, c2)), new

    def go1(x):
        op, a = x.op, x.args
        if op in ('map', 'mapcat', 'foreach') and len(a) == 4 and a[3].op == 'bv':
            (b, c), (v,) = scoped((a[1], a[2]), [a[3]])
            return mk(op, go(a[0]), b, c, v)
        if op == 'sum' and len(a) == 3 and a[2].op == 'bv':
            (b,), (v,) = scoped((a[1],), [a[2]])
            return mk('sum', go(a[0]), b, v)
        if op in ('exists', 'first'):
            l = max(z.mbv for z in a[1:])
            if not l:
                return mk(op, go(a[0]), *a[1:])
            q, _ = scoped(a[1:], [mk('bv', l)])
            return mk(op, go(a[0]), *q)
        if op == 'mu':
            k = len(a[1]) + 1
            bvs = [mk('bv', a[3].args[0] + j) for j in range(k)]
            q, new = scoped(a[2], bvs)
            return mk('mu', go(a[0]), _t._maptup(a[1], go), q, new[0])
        if op == 'storemap':
            bvs = [b for b, _ in a[1]]
            (idx, v, c, ns), new = scoped((a[2], a[3], a[4], tuple(n for _, n in a[1])), bvs)
            return mk('storemap', go(a[0]), tuple(zip(new, ns)), idx, v, c)
        return _t.rebuild(x, go)
    return go(t)


def bound_in(t):
    """(bound variables of a loop, the parts they are bound in)"""
    a = t.args
    if t.op in ('map', 'mapcat', 'foreach') and len(a) == 4 and a[3].op == 'bv':
        return [a[3]], a[1:3]
    if t.op == 'sum' and len(a) == 3 and a[2].op == 'bv':
        return [a[2]], a[1:2]
    if t.op in ('exists', 'first'):
        l = max(z.mbv for z in a[1:])
        return ([mk('bv', l)] if l else []), a[1:]
    if t.op == 'mu':
        return [mk('bv', a[3].args[0] + j) for j in range(len(a[1]) + 1)], a[2]
    return [], ()


BINDERS = {'map', 'mapcat', 'foreach', 'sum', 'exists', 'first', 'mu', 'storemap'}
PERCENT = {'numpy.percentile', 'numpy.nanpercentile'}
MEASURES = {'numpy.max', 'numpy.min', 'numpy.nanmax', 'numpy.nanmin', 'numpy.median', 'numpy.nanmedian', 'numpy.mean', 'numpy.nanmean'} | PERCENT


def measures(t):
    """the statistics of all entries of some data that a value uses"""
    r, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            if x.op == 'call' and x.args[0] in MEASURES and measured(x) is not None:
                r.add(x)
            st.extend(_t._iter_terms(x.args))
    return r


def measured(x):
    k = dict(x.args[2])
    return k['a'] if not x.args[1] and set(k) in ({'a'}, {'a', 'q'}) else None


def restated(t, m):
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = memo[x] = m[x] if x in m else _t.rebuild(x, go)
        return r
    return go(t)


BOUND = [_t.sym('#b%d' % k, scalar=True, nonnull=True) for k in range(12)]
PLACES = {'where', 'poly', 'ufunc', 'astype', 'num', 'call', 'index', 'sym', 'reshape', 'zeros', 'transpose', 'stack'}
_pt = {}


def point(t):
    """the value at one place of an array built element by element: choices become gates, anything else stands for its own element"""
    r = _pt.get(t)
    if r is None:
        r = _pt[t] = _point(t)
    return r


def _point(t):
    if t.op == 'where':
        c = point_cond(t.args[0])
        return t if c is None else ite(c, point(t.args[1]), point(t.args[2]))
    if t.op == 'ite':
        return ite(t.args[0], point(t.args[1]), point(t.args[2])) if t.args[0].op != 'bool' else t
    if t.op == 'poly':
        m = {}
        for mono, c in t.args[0]:
            for x, e in mono:
                y = point(x)
                if y is not x:
                    m[x] = y
        return subst_top_atoms(t, m) if m else t
    if t.op == 'ufunc':
        xs = [point(x) if isinstance(x, T) else x for x in t.args[1:]]
        return t if all(x is y for x, y in zip(xs, t.args[1:])) else mk_ufunc(t.args[0], *xs)
    if t.op == 'store' and len(t.args[1]) == 1 and t.args[0].op in ('zeros', 'store', 'where') and one_entry(t.args[2]):
        # put where a condition holds
        c = t.args[1][0]
        c = point_cond(c.args[0] if c.op == 'tuple' and len(c.args) == 1 else c)
        if c is not None:
            x = point(t.args[0])
            return ite(c, t.args[2], x.args[0] if x.op == 'zeros' else x)
    if t.op == 'index' and t.args[1] and asks_choice(t.args[1][0]) and all(_t.is_num(x) for x in t.args[1][1:]):
        # looked up by an array of choices
        x = point(t.args[1][0])
        while x.op == 'astype':
            x = x.args[0]
        if x.op == 'ite' and all(_t.is_int(z) for z in leaves_of(x)):
            return lift(lambda k: _s.index_items(t.args[0], (k,) + t.args[1][1:]), (x,))
    if t.op == 'astype':
        x = point(t.args[0])
        # the constants an image can hold whatever its type
        return t if x is t.args[0] else lift(lambda z: z if z.op == 'num' and is_int(z) and 0 <= intval(z) < 256 and t.args[1].op == 'attr' else mk('astype', z, t.args[1]), (x,))
    return t


def one_entry(v):
    return _t.is_scalar(v) or v.op == 'index' and len(v.args[1]) > 1 and all(_t.is_num(x) for x in v.args[1])


def leaves_of(t):
    return leaves_of(t.args[1]) | leaves_of(t.args[2]) if t.op == 'ite' else {t}


def asks_choice(x):
    return x.op == 'where' or x.op == 'astype' and asks_choice(x.args[0])


def point_cond(c):
    if c.op == 'bdd' and c.args[0].op == 'eq' and any(asks_choice(x) for x in c.args[0].args):
        # which of its values an array of choices has at the place
        x, y = [point(z) for z in c.args[0].args]
        if x.op == 'ite' or y.op == 'ite':
            p, q = point_cond(c.args[1]), point_cond(c.args[2])
            e = _t.lift(_t.c_eq, (x, y))
            if p is not None and q is not None and e.op in ('bool', 'bdd'):
                return _t.bdd_ite(e, p, q)
    if is_cond(c):
        return c
    if c.op == 'ite' and is_cond(atom_cond(c.args[0])):
        a, b = point_cond(c.args[1]), point_cond(c.args[2])
        return None if a is None or b is None else ite(atom_cond(c.args[0]), a, b)
    return None


def no_zeros(d):
    """without the products with an array of zeros"""
    if d.op != 'poly':
        return d
    p = dict((m, c) for m, c in d.args[0] if not (len(m) > 1 and any(a.op == 'zeros' and a.args[0] is ZERO and e > 0 for a, e in m)))
    return d if len(p) == len(d.args[0]) else _t.from_poly(p)


def as_mu(t):
    """a sequence of stores written as the recurrence of the array it is stored into"""
    if t.op != 'storemap' or len(t.args[1]) != 1:
        return t
    (bv, n), = t.args[1]
    k = _t.fresh_sym('$r', scalar=True, nonnull=True)
    idx, v, c = _t._maptup((t.args[2], t.args[3], t.args[4]), lambda z: _t._subst(z, {bv: k}, {}))
    lvl = max([z.mbv for z in _t._iter_terms((idx, v, c))] + [0])
    i, s = mk('bv', lvl + 1), mk('bv', lvl + 2)
    idx, v, c = _t._maptup((idx, v, c), lambda z: _t._subst(z, {k: i}, {}))
    body = mk('store', s, idx, v)
    if c is not TRUE:
        body = ite(c, body, s)
    return mk('mu', n, (t.args[0],), (body, TRUE, FALSE), i)


def block_of(A, binders, idx):
    """(binder, slice, whether the blocks cover the axis they are cut from) of a store made block by block, else None"""
    if len(binders) != 1:
        return None
    (bv, c), = binders
    hit = [k for k, x in enumerate(idx) if contains(x, lambda z: z is bv)]
    if len(hit) != 1 or idx[hit[0]].op != 'slice' or any(x is not _s.FULL for j, x in enumerate(idx) if j != hit[0]):
        return None
    ds = ext.dims(A) if A is not None else None
    return blocks(bv, c, idx[hit[0]], ds[hit[0]] if ds and hit[0] < len(ds) else None)


def blocks(bv, c, sl, d):
    lo, hi, st = sl.args
    if lo is NONE or hi is NONE or st is not NONE or not contains(lo, lambda z: z is bv):
        return None
    if hi.op == 'ufunc' and hi.args[0] == 'minimum' and len(hi.args) == 3:
        # up to the end of the data
        hi = [x for x in hi.args[1:] if contains(x, lambda z: z is bv)]
        if len(hi) != 1:
            return None
        hi = hi[0]
    w = _t.sub(hi, lo)
    s = _t.subst(lo, {bv: _t.ONE})
    if _t.mul(s, bv) is not lo or contains(w, lambda z: z is bv):
        return None
    if s is not w:
        return bv, sl, False if _t.is_num(s) and _t.is_num(w) and s.args[0] > w.args[0] else None
    return bv, sl, None if d is None else covers(c, d, w)


def covers(c, d, w):
    """whether c blocks of w entries hold all of d entries, for every d; None when not known"""
    if c.op == 'call' and c.args[0] == 'int' and len(c.args[1]) == 1:
        c = c.args[1][0]
    q = _t.mul(d, _t.power(w, _t.num(-1)))
    if c.op == 'call' and c.args[0] == 'rangelen':
        lo, hi, st = c.args[1]
        if st is not w or not _t.is_num(lo):
            return None
        if lo.args[0]:
            return False if lo.args[0] > 0 else None
        k = _t.sub(hi, d)
        return k.args[0] >= 0 if _t.is_num(k) else None
    if c.op == 'ufunc' and c.args[0] == 'ceil':
        k = _t.sub(c.args[1], q)
        return k.args[0] >= 0 if _t.is_num(k) else None
    if c.op == 'ufunc' and c.args[0] == 'floor' and _t.is_num(w):
        k = _t.sub(c.args[1], q)
        return k.args[0] >= 1 - 1 / Fraction(w.args[0]) if _t.is_num(k) else None
    if c is mk('ufunc', 'floor', q) or _t.sub(c, _t.ONE) is mk('ufunc', 'floor', q):
        return c is not mk('ufunc', 'floor', q)
    if _t.neg(c) is mk('ufunc', 'floor', _t.neg(q)):
        return True
    return None


def by_rows(v, bv, sl):
    """v for all the rows at once, when the block sl of it is computed row by row; None when it is not"""
    state = {'row': False}

    def has(x):
        return contains(x, lambda z: z is bv)

    def go(x):
        if not has(x):
            return x
        if x.op == 'index':
            base, items = x.args
            if not has(base) and sum(1 for z in items if z is sl) == 1 and not any(has(z) for z in items if z is not sl):
                k = [j for j, z in enumerate(items) if z is sl][0]
                if all(z is _s.FULL or _t.is_num(z) for j, z in enumerate(items) if j != k):
                    state['row'] = True
                    return _s.index_items(base, tuple(_s.FULL if z is sl else z for z in items))
                return None
            if any(has(z) for z in items) or not (base.op == 'call' and base.args[0].startswith('abs:')):
                return None
            b = go(base)
            return None if b is None else _s.index_items(b, items)
        if x.op == 'poly':
            m = {}
            for mono, c in x.args[0]:
                for a, e in mono:
                    if has(a):
                        m[a] = go(a)
            return None if None in m.values() else _t.subst(x, m)
        if x.op in ('ufunc', 'rowdot', 'where', 'astype'):
            bad = []

            def each(z):
                r = go(z)
                if r is None:
                    bad.append(z)
                return z if r is None else r
            r = _t.rebuild(x, each)
            return None if bad else r
        if x.op == 'matmul':
            if any(has(z) for z in x.args[1:]):
                return None
            y = go(x.args[0])
            return None if y is None else _s.matmul(y, *x.args[1:])
        if x.op == 'call' and x.args[0].startswith('abs:'):
            xs = tuple(go(z) for z in x.args[1])
            ks = tuple((k, go(z)) for k, z in x.args[2])
            return None if None in xs or any(z is None for k, z in ks) else mk('call', x.args[0], xs, ks)
        return None
    r = go(v)
    return r if state['row'] and r is not None and not has(r) else None


def is_blocks(t):
    if t.op == 'storemap':
        return block_of(t.args[0], t.args[1], t.args[2]) is not None
    return False


def in_blocks(t):
    """the stores of t made block by block that may leave nothing out"""
    return contains(t, lambda z: z.op == 'storemap' and (block_of(z.args[0], z.args[1], z.args[2]) or (0, 0, False))[2] is not False)


def unblocked(t):
    """t with what is computed block by block, and row by row in each, computed at once"""
    memo = {}

    def go(z):
        r = memo.get(z)
        if r is None:
            r = _t.rebuild(z, go)
            if r.op == 'storemap' and r.args[4] is TRUE and r.args[0].op == 'zeros':
                b = block_of(r.args[0], r.args[1], r.args[2])
                if b is not None and b[2]:
                    v = by_rows(r.args[3], b[0], b[1])
                    if v is not None:
                        r = v
            elif r.op == 'call' and r.args[0] in ('numpy.concatenate', 'numpy.hstack') and r.args[1] and r.args[1][0].op == 'map' and r.args[1][0].args[2] is TRUE:
                n, v, _, bv = r.args[1][0].args
                for sl in slices_of(v, bv):
                    x = cut_by(v, sl)
                    d = _s.length(x) if x is not None else None
                    b = d is not None and blocks(bv, n, sl, d)
                    w = by_rows(v, bv, sl) if b and b[2] else None
                    if w is not None:
                        r = w
                        break
                    if b and b[2] is False:
                        r = mk('storemap', mk('zeros', mk('any'), mk('tuple', d)), ((bv, n),), (sl,), v, TRUE)
                        break
            elif r.op == 'call' and r.args[0] in ('numpy.concatenate', 'numpy.hstack') and r.args[1] and r.args[1][0].op == 'tuple' and len(r.args[1][0].args) > 1:
                at, whole = _t.ZERO, None
                for k, v in enumerate(r.args[1][0].args):
                    sl = [x for x in all_slices(v) if (_t.ZERO if x.args[0] is NONE else x.args[0]) is at and x.args[2] is NONE and x is not _s.FULL]
                    if len(sl) != 1 or (sl[0].args[1] is NONE) != (k == len(r.args[1][0].args) - 1):
                        break
                    w = by_rows(v, sl[0], sl[0])
                    if w is None or whole not in (None, w):
                        break
                    whole, at = w, sl[0].args[1]
                else:
                    r = whole
            memo[z] = r
        return r
    return go(t) if contains(t, lambda z: is_blocks(z) or z.op == 'call' and z.args[0] in ('numpy.concatenate', 'numpy.hstack')) else t


def all_slices(v):
    out, seen = [], set()

    def go(z):
        if z in seen:
            return
        seen.add(z)
        if z.op == 'slice':
            out.append(z)
        for q in _t._iter_terms(z.args):
            go(q)
    go(v)
    return out


def slices_of(v, bv):
    return [z for z in all_slices(v) if contains(z, lambda q: q is bv)]


def cut_by(v, sl):
    """something v takes the slice sl of"""
    if v.op == 'index' and v.args[1] and v.args[1][0] is sl:
        return v.args[0]
    for q in _t._iter_terms(v.args):
        r = cut_by(q, sl)
        if r is not None:
            return r
    return None


def recurrences(t):
    """the loops run while a condition holds"""
    acc, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            if x.op == 'mu' and x.args[0].op == 'while':
                acc.add(x)
            st.extend(_t._iter_terms(x.args))
    return acc


def is_loopy(t):
    return t.op in LOOPY


_se = {}


def searches(t):
    """(kind, range, what is looked for) of the searches in t"""
    r = _se.get(t)
    if r is None:
        r = set()
        if t.op in ('exists', 'first') and len(t.args) == 2 and t.args[0].op != 'while':
            r.add((t.op, t.args[0], t.args[1]))
        for x in _t._iter_terms(t.args):
            r |= searches(x)
        _se[t] = r
    return r


def research(t, n, p, q):
    """t with q looked for instead of p"""
    memo = {}

    def go(z):
        r = memo.get(z)
        if r is None:
            if z.op in ('exists', 'first') and len(z.args) == 2 and z.args[0] is n and z.args[1] is p:
                r = mk(z.op, n, q)
            elif z.op in ('ite', 'bdd') and z.args[0].op == 'exists' and z.args[0].args[0] is n and z.args[0].args[1] is p:
                c = _t.atom_cond(mk('exists', n, q))
                r = (_t.bdd_ite if z.op == 'bdd' else ite)(c, go(z.args[1]), go(z.args[2]))
            else:
                r = _t.rebuild(z, go)
            memo[z] = r
        return r
    return go(t)


def within(u, v):
    """u is a part of v, and v a call of something on it"""
    return v.op == 'call' and u is not v and contains(v, lambda z: z is u)


def named_by(p):
    """(text, words) when p asks whether one of the words is in the text, in small letters where the text is"""
    ws = set()
    text = None
    while True:
        at, rest = p, None
        if p.op in ('ite', 'bdd') and len(p.args) == 3 and p.args[1] is _t.TRUE:
            at, rest = p.args[0], p.args[2]
        elif p.op in ('ite', 'bdd') and len(p.args) == 3 and p.args[1] is _t.TRUE and p.args[2] is _t.FALSE:
            at = p.args[0]
        if at.op == 'bdd' and at.args[1] is _t.TRUE and at.args[2] is _t.FALSE:
            at = at.args[0]
        if at.op != 'in' or at.args[0].op != 'str' or text not in (None, at.args[1]):
            return None
        text = at.args[1]
        w = at.args[0].args[0]
        if not w.isalpha() or not w.islower():
            return None
        ws.add(w)
        if rest is None or rest is _t.FALSE:
            return text, ws
        p = rest


def shortest(ws):
    return {w for w in ws if not any(v != w and v in w for v in ws)}


def given(a, b, conds):
    """a and b with what is known to be equal on this path written the same"""
    for at, v in conds:
        if v and at.op == 'eq' and len(at.args) == 2:
            p, q = at.args
            if is_const(p):
                p, q = q, p
            if is_const(p) or (q.op != 'sym' and not is_const(q) and contains(q, lambda t: t is p)):
                continue
            a, b = subst(a, {p: q}), subst(b, {p: q})
    return a, b


def stops_or_skips(x, y):
    """one takes the entries up to the first that is unwanted, the other all entries but the unwanted ones"""
    if x.op != 'map' or y.op != 'map' or len(x.args) != 4 or len(y.args) != 4 or x.args[0].op != 'first' or len(x.args[0].args) != 2:
        return False
    n, p = x.args[0].args
    if n is not y.args[0] or not p.mbv:
        return False
    z = mk('sym', '#entry')
    p = _t.subst(p, {mk('bv', p.mbv): z})
    q = _t.subst(y.args[2], {y.args[3]: z})
    return _t.b_not(p) is q and _t.contains(p, lambda t: t is z) and _t.subst(x.args[1], {x.args[3]: z}) is _t.subst(y.args[1], {y.args[3]: z}) and x.args[2] is _t.TRUE


class Eq(object):
    def __init__(self, loose_exc=True):
        self.memo = {}
        self.loose_exc = loose_exc
        self.steps = 0
        self.unsure = False
        self.depth = 0
        self.binders = 0
        self.dtypes = False
        self.shared = set()     # conditions both sides ask
        self.at = 'result'
        self.roots = None       # the outcome trees being compared

    def top(self, a, b, res, path='result', conds=()):
        """compare outcome trees, collecting differing leaves"""
        if a is b:
            res.leaves += 1
            return True
        if not conds:
            self.roots, self.at = (a, b), path
        if a.op != 'tuple' and not conds:
            r = self.searched(a, b)
            if r is not None:
                res.leaves += 1
                res.diffs.append((path,) + r + (conds,))
                return False
        at = None
        for x in (a, b):
            if x.op in ('ite', 'bdd'):
                if at is None or x.args[0] < at:
                    at = x.args[0]
        if at is not None:
            if is_any(b) and a.op != 'raise' and not only_raises(a):
                return True
            twins = self.twins(at, a, b)
            if at in spine_gates(a) and at in spine_gates(b):
                self.shared.add(at)
            ok = True
            for v in (True, False):
                a2, b2 = deep_restrict(a, at, v), deep_restrict(b, at, v)
                for z in twins:
                    a2, b2 = deep_restrict(a2, z, v), deep_restrict(b2, z, v)
                if a2 is a and b2 is b:
                    a2, b2 = restrict_spine(a, at, v), restrict_spine(b, at, v)
                ok = self.top(a2, b2, res, path, conds + ((at, v),)) and ok
            return ok
        res.leaves += 1
        if is_any(b) and a.op != 'raise':
            return True
        if a.op == 'raise' or b.op == 'raise':
            if a.op == b.op and (self.loose_exc or a is b):
                return True
            res.diffs.append((path, a, b, conds))
            return False
        if a.op == 'tuple' and b.op == 'tuple' and len(a.args) == len(b.args):
            ok = True
            for k, (x, y) in enumerate(zip(a.args, b.args)):
                ok = self.top(x, y, res, '%s[%d]' % (path, k), conds) and ok
            return ok
        if 'tuple' in (a.op, b.op) and a.op != b.op:
            x, y = (a, b) if a.op == 'tuple' else (b, a)
            if is_eta(x, y):
                return True
        if a.op == 'dict' and b.op == 'dict' and [k for k, _ in a.args[0]] == [k for k, _ in b.args[0]]:
            ok = True
            for (k, x), (_, y) in zip(a.args[0], b.args[0]):
                ok = self.top(x, y, res, '%s[%s]' % (path, show(k)), conds) and ok
            return ok
        if a.op == 'obj' and b.op == 'obj' and a.args[0] == b.args[0]:
            da, db = dict(a.args[2]), dict(b.args[2])
            ok = True
            for k in sorted(set(da) | set(db)):
                ok = self.top(da.get(k, mk('undef')), db.get(k, mk('undef')), res, '%s.%s' % (path, k), conds) and ok
            return ok
        self.unsure = False
        try:
            if self.same(a, b):
                return True
        except _t.Budget:
            self.unsure = True
        if self.unsure:
            res.undecided.append((path, mk('top', 'normal form too large'), b, conds))
            return False
        if contains(a, lambda t: t.op == 'top') or contains(b, lambda t: t.op == 'top'):
            res.undecided.append((path, a, b, conds))
            return False
        try:
            a, b = unblocked(a), unblocked(b)
            if self.same(a, b):
                return True
        except _t.Budget:
            pass
        r = self.alike(a, b)
        if r:
            return True
        if r is None:
            res.undecided.append((path, mk('top', 'another formulation: a number for an array of it'), b, conds))
            return False
        a2, b2 = given(a, b, conds)
        if (a2 is not a or b2 is not b) and self.same(a2, b2):
            return True
        x, y = self.narrow(a, b)
        if {x.op, y.op} == {'mu', 'storemap'}:
            x2, y2 = as_mu(x), as_mu(y)
            if x2.op == y2.op:
                x, y = self.narrow(relevel(x2), relevel(y2))
        extra = self.formulation(a, b, x, y, conds, path)
        if extra:
            res.undecided.append((path, mk('top', 'another formulation: ' + ', '.join(sorted(extra))), y, conds))
            return False
        res.diffs.append((path, x, y, conds))
        return False

    def searched(self, a, b):
        """what two searches of the same places look for, when nothing else tells a from b"""
        f, g = searches(a), searches(b)
        f, g = f - g, g - f
        ps, qs = {(n, p) for _, n, p in f}, {(n, p) for _, n, p in g}
        if len(ps) != 1 or len(qs) != 1:
            return None
        (n, p), (m, q) = ps.pop(), qs.pop()
        if n is not m or contains(p, is_loopy) or contains(q, is_loopy):
            return None
        try:
            if self.same(p, q) or not self.same(research(a, n, p, q), b):
                return None
            res = Result()
            self.top(p, q, res, '', ((TRUE, True),))
            if res.undecided or not res.diffs:
                return None
            return self.condition_step(p, q)
        except (_t.Budget, RecursionError):
            return None

    def condition_step(self, p, q):
        """the one thing that makes p another condition than q: how the same questions are combined, a literal, or a step left out of
        (or added to) what is asked about"""
        u, v = named_by(p), named_by(q)
        if u and v and u[0] is v[0]:
            # either of these words in the same text: only the words without another of them inside count
            k, l = shortest(u[1]), shortest(v[1])
            if k == l:
                return None
            if len(k) + len(l) > 2:
                return p, q
        f, g = spine_gates(p), spine_gates(q)
        f, g = [x for x in sorted(f) if not any(self.same(x, y) for y in g)], [y for y in sorted(g) if not any(self.same(x, y) for x in f)]
        if not f and not g:
            return self.narrow(p, q)
        if len(f) != len(g):
            return None
        found = None
        for x in f:
            ok = None
            for y in g:
                u, v = self.narrow(x, y)
                if u.op == v.op and u.op in ('num', 'str') and len(f) == 1 or u is not x and within(u, v) or v is not y and within(v, u):
                    if found in (None, (u, v)):
                        ok = found = (u, v)
            if ok is None:
                return None
        return found

    def alike(self, a, b):
        """the same once what can be spelled in several ways is spelled in one; None when only the extent of an array of equal
        numbers may differ"""
        try:
            if a.mbv and b.mbv and self.same(relevel(a), relevel(b)):
                return True
        except _t.Budget:
            pass
        try:
            a2, b2 = by_position(a, b)
            if contains(a, is_wide) and not contains(b, is_wide) and not self.dtypes:
                a2 = wide(a2)           # more precision than asked for
            if contains(a, is_whole) and not contains(b, is_whole):
                a2 = whole(a2)
            if contains(a, is_keys) != contains(b, is_keys):
                a2, b2 = no_keys(a2), no_keys(b2)
            dims = dimensions_asked(a2)
            if dims:
                other = dimensions_asked(b2)
                dims = dict((x, k) for x, k in dims.items() if other.get(x) == k)
                if dims:
                    a2, b2 = spelled_out(a2, dims), spelled_out(b2, dims)
            if contains(a2, is_float) and not contains(b2, is_float):
                a2 = no_float(a2)       # numbers spelled as floats
            if (a2 is not a or b2 is not b) and self.same(a2, b2):
                return True
            if contains(a2, is_blank) or contains(b2, is_blank):
                a3, b3 = flat(a2), flat(b2)
                if (a3 is not a2 or b3 is not b2) and self.same(a3, b3):
                    return False if self.other_extent(a2, b2) else None
        except _t.Budget:
            pass
        return False

    def other_extent(self, a, b):
        """both are filled piece by piece into blank arrays of as many dimensions, of other sizes"""
        while a.op in ('store', 'storemap', 'astype'):
            a = a.args[0]
        while b.op in ('store', 'storemap', 'astype'):
            b = b.args[0]
        if a.op != 'zeros' or b.op != 'zeros' or len(a.args) != 2 or len(b.args) != 2:
            return False
        p, q = a.args[1], b.args[1]
        return p.op == 'tuple' and q.op == 'tuple' and len(p.args) == len(q.args) and not self.same(p, q)

    def other_recurrence(self, x, y):
        """two loops that carry different things from turn to turn: not the same number of them, or others that start, change and
        end otherwise"""
        if len(x.args[1]) != len(y.args[1]):
            return True
        n = len(x.args[1])
        starts = [not self.same(p, q) for p, q in zip(x.args[1], y.args[1])]
        return any(starts) and x.args[2][n] is not y.args[2][n] and any(
            d and p is not q for d, p, q in zip(starts, x.args[2], y.args[2]))

    def formulation(self, a, b, x, y, conds=(), path=''):
        """what makes the difference between a and b, narrowed to x and y, one of formulation"""
        if stops_or_skips(x, y) or stops_or_skips(y, x):
            return set()
        if in_blocks(x) and not in_blocks(b):
            return {'blocks'}
        p, q = recurrences(self.roots[0] if self.roots else a), recurrences(self.roots[1] if self.roots else b)
        p, q = p - q, q - p
        if p and q and all(self.other_recurrence(u, v) for u in p for v in q):
            return {'recurrence'}
        if ('call', 'numpy.trapz') in heads(b) and ('call', 'numpy.trapz') not in heads(a) and self.swapped(a, b):
            return set()
        r, s = self.roots or (a, b)
        extra = reform_ops(x) - reform_ops(b) - (reform_ops(s) - LOOPY)
        if not extra:
            for at, v in conds:
                if at not in self.shared:
                    extra |= reform_ops(at) & {'carry', 'first', 'exists'}
        if not extra and self.roots:
            # a condition asked in words the other side does not use at all, and the other way round
            r, s = self.roots or (a, b)
            gr, gs = spine_gates(r), spine_gates(s)
            mine, theirs = set(), set()
            for at, v in conds:
                if at not in self.shared:
                    if at in gr and at not in gs:
                        mine |= words(at)
                    elif at in gs and at not in gr:
                        theirs |= words(at)
            mine, theirs = mine - words(s), theirs - words(r)
            if mine and theirs:
                extra = mine
        if not extra and self.other_case(a, conds, path):
            return set()
        if not extra:
            extra = {n for n in reform_ops(y) - reform_ops(a) if n in JOINS}
        if not extra and other_loops(x, y):
            extra = {'loop'}
        if not extra and not self.renamed(x, y):
            # each side is expressed with something the other does not use at all
            r, s = self.roots or (a, b)
            more, less = words(x) - words(b) - words(s), words(y) - words(a) - words(r)
            if more and less and not self.swapped(a, b) and not self.statistics(a, b):
                extra = more
        return extra

    def other_case(self, a, conds, path):
        """a is what the specification answers too, but in another case: only the conditions differ"""
        if not self.roots or not conds:
            return False
        r, s = self.roots
        gr, gs = spine_gates(r), spine_gates(s)
        theirs = [at for at, v in conds if at in gs and at not in gr]
        mine = [at for at, v in conds if at in gr and at not in gs]
        if not mine or not 1 <= len(theirs) <= 2 or len(mine) > 2 or not path.startswith(self.at) or not re.match(r'^(\[\d+\])*$', path[len(self.at):]):
            return False
        for at, v in conds:
            if at not in theirs:
                s = deep_restrict(s, at, v)
        was = tuple(v for at, v in conds if at in theirs)
        for vs in itertools.product((True, False), repeat=len(theirs)):
            if vs == was:
                continue
            z = s
            for at, v in zip(theirs, vs):
                z = deep_restrict(z, at, v)
            for k in re.findall(r'\[(\d+)\]', path[len(self.at):]):
                z = z.args[int(k)] if z.op == 'tuple' and int(k) < len(z.args) else None
                if z is None:
                    break
            try:
                if z is not None and z.op not in ('ite', 'raise') and self.same(a, z):
                    return True
            except (_t.Budget, RecursionError):
                pass
        return False

    def norms(self, a, b):
        """a becomes b once its sums or maxima of absolute values are read as square roots of sums of squares"""
        if contains(a, is_wide) and not contains(b, is_wide):
            a = wide(a)
        m = {}
        seen, st = set(), [a]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(_t._iter_terms(x.args))
            if x.op == 'call' and x.args[0] in ('numpy.sum', 'numpy.max', 'numpy.nanmax', 'numpy.nansum') and not x.args[1]:
                k = dict(x.args[2])
                v = k.get('a')
                if v is not None and v.op == 'ufunc' and v.args[0] == 'abs' and set(k) <= {'a', 'axis'}:
                    v = v.args[1]
                    m[x] = _t.power(mk('rowdot', v, v) if 'axis' in k else mk('inner', v, v), _t.num(Fraction(1, 2)))
        return bool(m) and self.same(restated(a, m), b)

    def statistics(self, a, b):
        """a becomes b once its statistics of some data are read as other statistics of the same data"""
        try:
            if self.norms(a, b):
                return True
            p, q = measures(a), measures(b)
        except _t.Budget:
            return False
        p, q = p - q, q - p
        if not 1 <= len(p) == len(q) <= 3 or len(set(measured(x) for x in p | q)) != 1:
            return False
        for ys in itertools.permutations(sorted(q)):
            m = dict(zip(sorted(p), ys))
            if any(x.args[0] == y.args[0] and x.args[0] not in PERCENT for x, y in m.items()):
                continue
            try:
                if self.same(restated(a, m), b):
                    return True
            except (_t.Budget, RecursionError):
                pass
        return False

    def swapped(self, a, b):
        """a becomes b once a single function (or method) used in a is read as another one: same operands everywhere"""
        try:
            if contains(a, is_wide) and not contains(b, is_wide):
                a = wide(a)
            if contains(a, is_float) and not contains(b, is_float):
                a = no_float(a)
        except _t.Budget:
            pass
        p, q = heads(a), heads(b)
        p, q = p - q, q - p
        if len(p) != 1 or len(q) != 1:
            return False
        (k1, f), (k2, g) = p.pop(), q.pop()
        if k1 != k2 or f.split('.')[-1].lstrip('f') == g.split('.')[-1].lstrip('f'):
            return False
        memo = {}
        sums = {'numpy.trapz', 'numpy.sum', 'scipy.integrate.trapezoid', 'numpy.trapezoid', 'scipy.integrate.simpson', 'scipy.integrate.simps'}

        def go(t):
            r = memo.get(t)
            if r is None:
                if f in sums and g in sums and 'numpy.sum' in (f, g) and t.op == k1 and t.args[0] in (f, g):
                    # an integral over given positions, or the sum of the samples
                    ops = list(_t._iter_terms(t.args[1:]))
                    t2 = mk('call', 'sum of samples', (go(ops[0]),), ()) if ops and (t.args[0] == 'numpy.sum') == (len(ops) == 1) else _t.rebuild(t, go)
                elif t.op == k1 and t.args[0] == f:
                    t2 = mk(k1, g, *_t._maptup(t.args[1:], go))
                else:
                    t2 = _t.rebuild(t, go)
                r = memo[t] = t2
            return r
        try:
            a, b = go(a), go(b) if f in sums and g in sums else b
            if a.op == 'arr' and b.op == 'tuple':
                return a.args[0] == (len(b.args),) and all(self.same(x, y) for x, y in zip(a.args[1], b.args))
            return self.same(a, b)
        except (_t.Budget, RecursionError):
            return False

    def twins(self, at, a, b):
        """other gates of the two outcome trees that provably are the same condition as at"""
        if at.op == 'sym' or len(list(_t._iter_terms(at.args))) == 0:
            return []
        ga, gb = spine_gates(a), spine_gates(b)
        if at in ga and at in gb:
            return []
        r = []
        for z in sorted((ga | gb) - {at}):
            if z.op == at.op and len(z.args) == len(at.args) and (z in ga) != (z in gb) and self.same_atom(at, z):
                r.append(z)
        return r

    def same(self, a, b):
        if a is b:
            return True
        if is_any(b):
            return True
        k = (a, b)
        r = self.memo.get(k)
        if r is not None:
            return r
        self.steps += 1
        if self.steps > 20000:
            return False
        self.memo[k] = False
        r = self._same(a, b) or self.ext_same(a, b)
        self.memo[k] = r
        return r

    def _same(self, a, b):
        # gates anywhere: expand on a common atom
        if a.op in ('ite', 'bdd') or b.op in ('ite', 'bdd'):
            at = min(x.args[0] for x in (a, b) if x.op in ('ite', 'bdd'))
            for v in (True, False):
                a2, b2 = deep_restrict(a, at, v), deep_restrict(b, at, v)
                if a2 is a and b2 is b:
                    return False
                if not self.same(a2, b2):
                    # equal up to provably equal atoms
                    return self.same_bdd(a, b)
            return True
        if a.op == 'tuple' and b.op == 'arr' or a.op == 'arr' and b.op == 'tuple':
            x, y = tup2arr(a), tup2arr(b)
            if (x, y) != (a, b):
                return self.same(x, y)
        if 'tuple' in (a.op, b.op) and a.op != b.op and is_eta(*((a, b) if a.op == 'tuple' else (b, a))):
            return True
        if a.op == 'obj' and b.op == 'obj' and a.args[0] == b.args[0]:
            da, db = dict(a.args[2]), dict(b.args[2])
            return set(da) == set(db) and all(self.same(da[k2], db[k2]) for k2 in da)
        if 'poly' in (a.op, b.op):
            d = _t._sub(a, b) if not ({'arr', 'ite'} & {a.op, b.op}) else None
            if d is not None:
                d = no_zeros(d)
                try:
                    if rat_zero(d):
                        return True
                    if any(x.op == 'quot' for x in atoms_of(d)) and rat_zero(_t.expand_quots(d)):
                        return True
                except _t.Budget:
                    # too large to multiply out: evaluate both sides over a prime field at random atom values
                    z = _t.vanishes(d)
                    if z:
                        return True
                    if z is None and not _t.quots_independent(d):
                        self.unsure = True
                        return False
                # identify provably equal atoms
                aa = atoms_of(a)
                bb = atoms_of(b)
                m = {}
                for x in aa - bb:
                    for y in bb - aa:
                        if x.op == y.op and self.same(x, y):
                            m[x] = y
                            break
                if m:
                    from .structs import subst_top_atoms
                    a2 = subst_top_atoms(a, m) if a.op == 'poly' else m.get(a, a)
                    if a2 is not a and self.same(a2, b):
                        return True
            # gates hidden inside
        if {a.op, b.op} == {'zeros', 'poly'}:
            x, y = [_t.add(z.args[0], mk('zeros', ZERO, z.args[1])) if z.op == 'zeros' and len(z.args) == 2 and z.args[0] is not ZERO else z for z in (a, b)]
            if (x is not a or y is not b) and not (x.op == 'zeros' or y.op == 'zeros') and self.same(x, y):
                return True
        if a.op == 'zeros' and b.op == 'zeros' and len(a.args) != len(b.args) and a.args[0] is not ZERO:
            # filled with a value whose own type it takes
            return self.args_same(a.args[:2], b.args[:2])
        if a.op in PLACES and b.op in PLACES:
            x, y = point(a), point(b)
            if (x is not a or y is not b) and self.same(x, y):
                return True
        at = inner_atom(a) or inner_atom(b)
        if a.op == b.op and a.op not in ('poly', 'num', 'str', 'sym', 'bv'):
            if self.args_same(a.args, b.args):
                return True
            if a.op in BINDERS and self.bound_same(a, b):
                return True
            if a.op in ('index', 'store') and self.ell_same(a, b):
                return True
        if at is not None:
            for v in (True, False):
                a2, b2 = deep_restrict(a, at, v), deep_restrict(b, at, v)
                if a2 is a and b2 is b:
                    return False
                if not self.same(a2, b2):
                    return False
            return True
        return False

    def bound_same(self, a, b):
        """loops whose bound variables carry other numbers, because one encloses more loops than the other"""
        if a.op == 'storemap':
            ba, bb = a.args[1], b.args[1]
            if len(ba) != len(bb) or [x for x, _ in ba] == [y for y, _ in bb]:
                return False
            va, vb = [x for x, _ in ba], [y for y, _ in bb]
            pa, pb = (tuple(n for _, n in ba),) + a.args[2:], (tuple(n for _, n in bb),) + b.args[2:]
            if not self.same(a.args[0], b.args[0]):
                return False
        else:
            if len(a.args) != len(b.args):
                return False
            va, pa = bound_in(a)
            vb, pb = bound_in(b)
            if len(va) != len(vb) or va == vb or not self.same(a.args[0], b.args[0]):
                return False
            if a.op == 'mu' and not self.args_same(a.args[1], b.args[1]):
                return False
        if self.binders + len(va) > len(BOUND):
            return False
        new = BOUND[self.binders:self.binders + len(va)]
        self.binders += len(va)
        try:
            ca, cb = {}, {}
            ma, mb = dict(zip(va, new)), dict(zip(vb, new))
            return self.args_same(_t._maptup(pa, lambda z: _t._subst(z, ma, ca)), _t._maptup(pb, lambda z: _t._subst(z, mb, cb)))
        finally:
            self.binders -= len(va)

    def ell_same(self, a, b):
        """x[..., k] is x[:, :, k] of an array with as many dimensions as the latter names"""
        p, q = a.args[1], b.args[1]
        if not (isinstance(p, tuple) and isinstance(q, tuple)) or (ELL in p) == (ELL in q):
            return False
        if ELL in q:
            p, q = q, p
        k = p.index(ELL)
        n = len(q) - len(p) + 1
        if n < 1 or not all(x.op == 'slice' and all(y is NONE for y in x.args) for x in q[k:k + n]):
            return False
        return self.args_same(p[:k] + q[k:k + n] + p[k + 1:], q) and self.args_same((a.args[0],) + a.args[2:], (b.args[0],) + b.args[2:])

    def ext_same(self, a, b):
        if a.op not in ext.KINDS and b.op not in ext.KINDS or a.op in ('tuple', 'dict', 'obj') or b.op in ('tuple', 'dict', 'obj'):
            return False
        n, m = ext.ndim(a), ext.ndim(b)
        if n is None or n != m or not 0 < n <= 4:
            return False
        da, db = ext.dims(a), ext.dims(b)
        if da is None or db is None:
            return False
        for x, y in zip(da, db):
            if not (ext.opaque_dim(x) or ext.opaque_dim(y) or self.same(x, y)):
                return False
        if self.dtypes:
            p, q = ext.dtype_of_term(a), ext.dtype_of_term(b)
            if p is not None and q is not None and p is not q:
                return False
        if self.depth > 3:
            return False
        self.depth += 1
        try:
            ix = ext.GENERIC[:n]
            ea, eb = ext.elem(a, ix), ext.elem(b, ix)
            if ea is None or eb is None or (ea.op == 'index' and ea.args[0] is a and eb.op == 'index' and eb.args[0] is b):
                return False
            return self.same(ea, eb)
        finally:
            self.depth -= 1

    def same_bdd(self, a, b):
        """conditions / gates equal when atoms are provably equal"""
        if a.op == b.op and a.op in ('bdd', 'ite'):
            if self.same_atom(a.args[0], b.args[0]):
                return self.same(a.args[1], b.args[1]) and self.same(a.args[2], b.args[2])
        return False

    def same_atom(self, x, y):
        if x is y:
            return True
        if x.op != y.op:
            return False
        return self.args_same(x.args, y.args)

    def args_same(self, x, y):
        if isinstance(x, T) and isinstance(y, T):
            return self.same(x, y)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.args_same(p, q) for p, q in zip(x, y))
        return type(x) is type(y) and x == y

    def renamed(self, x, y):
        """one function in place of another on the same operands"""
        if inverse_for_direct(x, y) or inverse_for_direct(y, x):
            return True
        if x.op != y.op or x.op not in ('call', 'ufunc', 'matmul', 'inner', 'rowdot') or len(x.args) != len(y.args):
            return False
        return x.args[0] != y.args[0] and self.args_same(x.args[1:], y.args[1:])

    def narrow(self, a, b, depth=0):
        """innermost differing pair"""
        if depth <= 12 and 'poly' in (a.op, b.op) and a.op not in ('arr', 'ite', 'tuple') and b.op not in ('arr', 'ite', 'tuple'):
            pa, pb = _t.to_poly(a), _t.to_poly(b)
            da = dict((m, c) for m, c in pa.items() if pb.get(m) != c)
            db = dict((m, c) for m, c in pb.items() if pa.get(m) != c)
            xa = set(x for m in da for x, e in m)
            xb = set(x for m in db for x, e in m)
            oa, ob = xa - xb, xb - xa
            if len(oa) == 1 and len(ob) == 1:
                x, y = list(oa)[0], list(ob)[0]
                if x.op == y.op and x.op not in ('sym', 'num'):
                    return self.narrow(x, y, depth + 1)
            if da and db and (len(da) < len(pa) or len(db) < len(pb)):
                return _t.from_poly(da), _t.from_poly(db)
            return a, b
        if a.op == 'pow' and b.op == 'pow' and depth <= 12:
            return self.narrow(a.args[0], b.args[0], depth + 1)
        if depth > 12 or a.op != b.op or len(a.args) != len(b.args) or a.op in ('poly', 'num', 'str'):
            return a, b
        bad = []
        xs = list(_t._iter_terms(a.args))
        ys = list(_t._iter_terms(b.args))
        if len(xs) != len(ys):
            return a, b
        for x, y in zip(xs, ys):
            if not (ext.opaque_dim(x) or ext.opaque_dim(y) or self.same(x, y)):
                bad.append((x, y))
        if len(bad) == 1:
            return self.narrow(bad[0][0], bad[0][1], depth + 1)
        return a, b


def inverse_for_direct(x, y):
    """x is a trigonometric function (or a ratio of some) of the very angle of which y is an inverse one, with the same factors around"""
    p, q = _t.to_poly(x), _t.to_poly(y)
    if len(p) != 1 or len(q) != 1 or set(p.values()) != set(q.values()):
        return False
    m, n = dict(list(p)[0]), dict(list(q)[0])
    for k in set(m) & set(n):
        if m[k] == n[k]:
            del m[k], n[k]
    if len(n) != 1 or not 1 <= len(m) <= 2:
        return False
    (g, e), = n.items()
    return e == 1 and g.op == 'ufunc' and g.args[0] in ('arctan', 'arcsin', 'arccos') and all(k.op == 'ufunc' and k.args[0] in ('sin', 'cos', 'tan') and k.args[1:] == g.args[1:] for k in m)


_sg = {}


def spine_gates(t):
    """conditions of the gates at the top of an outcome tree"""
    r = _sg.get(t)
    if r is None:
        r = set()
        if t.op in ('ite', 'bdd'):
            r = {t.args[0]} | spine_gates(t.args[1]) | spine_gates(t.args[2])
        elif t.op == 'tuple':
            for x in t.args:
                r |= spine_gates(x)
        _sg[t] = r
    return r


def atoms_of(t):
    if t.op == 'poly':
        return set(x for m, c in t.args[0] for x, e in m)
    return {t}


_inner = {}


def inner_atom(t):
    """smallest gate atom nested anywhere in t (not under a binder of its own variables)"""
    if t in _inner:
        return _inner[t]
    _inner[t] = None
    r = None
    for x in _t._iter_terms(t.args):
        if x.op == 'ite':
            c = x.args[0]
            if c.mbv == 0:
                if r is None or c < r:
                    r = c
        c = inner_atom(x)
        if c is not None and (r is None or c < r):
            r = c
    _inner[t] = r
    return r


_dr = {}


def deep_restrict(t, atom, val):
    k = (t, atom, val)
    r = _dr.get(k)
    if r is not None:
        return r
    if t.op in ('ite', 'bdd'):
        a, h, l = t.args
        v = fact_implied(a, atom, val)
        if v is True:
            r = deep_restrict(h, atom, val)
        elif v is False:
            r = deep_restrict(l, atom, val)
        else:
            f = lambda x: deep_restrict(x, atom, val)
            c = f_cond(a, f) if a.mbv or True else atom_cond(a)
            h2, l2 = f(h), f(l)
            r = bdd_ite(c, h2, l2) if t.op == 'bdd' else ite(c, h2, l2)
    elif not t.args or t.op in ('num', 'str', 'bool', 'none', 'sym', 'bv', 'top', 'ext', 'undef'):
        r = t
    else:
        r = rebuild(t, lambda x: deep_restrict(x, atom, val))
        if r.op == 'ufunc' and r.args[0] in ('maximum', 'minimum') and len(r.args) == 3 and atom.op == 'pos':
            p, q = r.args[1:]
            g = greater(p, q, atom, val)
            if g is not None:
                r = p if g == (r.args[0] == 'maximum') else q
    _dr[k] = r
    return r


def greater(p, q, atom, val):
    """True: p >= q, False: p <= q, None: not settled by the condition"""
    for x, y, w in ((p, q, True), (q, p, False)):
        d = c_pos(_t._sub(x, y)) if not ({'arr', 'ite'} & {x.op, y.op}) else None
        if d is None or d.op != 'bdd' or d.args[0].op != 'pos':
            continue
        pol = d.args[1] is TRUE
        v = fact_implied(d.args[0], atom, val)
        if v is not None:
            return w if v == pol else not w
    return None
