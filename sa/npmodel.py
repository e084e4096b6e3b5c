"""Value model of the external functions the code base uses (numpy mostly)."""
from .terms import *
from .structs import *

DT = {}
for _c, _names in {
    'float64': 'float numpy.float64 numpy.float numpy.double float64 numpy.float_ d',
    'float32': 'numpy.float32 float32 numpy.single f f4',
    'int64': 'int numpy.int64 numpy.int int64 numpy.int_ numpy.intp',
    'int32': 'numpy.int32 int32 numpy.intc', 'int16': 'numpy.int16 int16', 'int8': 'numpy.int8 int8',
    'uint8': 'numpy.uint8 uint8 numpy.ubyte', 'uint16': 'numpy.uint16 uint16', 'uint32': 'numpy.uint32 uint32',
    'uint64': 'numpy.uint64 uint64', 'bool': 'bool numpy.bool_ numpy.bool', 'complex64': 'numpy.complex64 complex64',
    'complex128': 'numpy.complex128 complex128 complex numpy.complex', 'float16': 'numpy.float16 float16',
    'str': 'str numpy.str_ numpy.str', 'object': 'object numpy.object numpy.object_',
}.items():
    for _n in _names.split():
        DT[_n] = _c

def count_below(table, v, strictly):
    """how many entries of a known ascending table lie at or below v (strictly: below)"""
    xs = table.args if table.op == 'tuple' else table.args[1]
    local = lambda x: x.op == 'call' and x.args[0] == 'seconds by the local clock'
    vals = [x if is_num(x) else x.args[1][0] if local(x) else None for x in xs]
    if not xs or len(xs) > 64 or None in vals or [x.args[0] for x in vals] != sorted(x.args[0] for x in vals):
        return None
    if not is_scalar(v):
        return None
    r = num(len(xs))
    for k in range(len(xs) - 1, -1, -1):
        r = ite(c_le(v, xs[k]) if strictly else c_lt(v, xs[k]), num(k), r)
    return r


ALIAS = {
    'numpy.linalg.linalg.norm': 'numpy.linalg.norm', 'numpy.absolute': 'numpy.abs', 'numpy.fabs': 'numpy.abs',
    'numpy.asanyarray': 'numpy.asarray', 'numpy.ascontiguousarray': 'numpy.asarray', 'numpy.product': 'numpy.prod',
    'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'numpy.asin': 'numpy.arcsin', 'numpy.acos': 'numpy.arccos',
    'numpy.atan': 'numpy.arctan', 'numpy.atan2': 'numpy.arctan2', 'numpy.round_': 'numpy.round', 'numpy.around': 'numpy.round',
    'math.sin': 'numpy.sin', 'math.cos': 'numpy.cos', 'math.tan': 'numpy.tan', 'math.sqrt': 'numpy.sqrt',
    'math.asin': 'numpy.arcsin', 'math.acos': 'numpy.arccos', 'math.atan': 'numpy.arctan', 'math.atan2': 'numpy.arctan2',
    'math.radians': 'numpy.deg2rad', 'math.degrees': 'numpy.rad2deg', 'math.exp': 'numpy.exp', 'math.log': 'numpy.log',
    'math.floor': 'numpy.floor', 'math.ceil': 'numpy.ceil', 'math.pow': 'numpy.power', 'math.fabs': 'numpy.abs',
    'math.hypot': 'numpy.hypot', 'math.trunc': 'numpy.trunc', 'math.log10': 'numpy.log10', 'math.log2': 'numpy.log2',
    'math.isnan': 'numpy.isnan', 'math.prod': 'numpy.prod', 'math.fmod': 'numpy.fmod',
    'numpy.radians': 'numpy.deg2rad', 'numpy.degrees': 'numpy.rad2deg', 'numpy.fix': 'numpy.trunc',
    'numpy.float_power': 'numpy.power', 'numpy.matmul': 'numpy.dot', 'numpy.bitwise_and': 'numpy.logical_and',
    'numpy.bitwise_or': 'numpy.logical_or', 'numpy.invert': 'numpy.logical_not', 'numpy.row_stack': 'numpy.vstack',
    'scipy.linalg.inv': 'numpy.linalg.inv', 'numpy.concat': 'numpy.concatenate', 'numpy.true_divide': 'numpy.divide',
    'numpy.cumproduct': 'numpy.cumprod', 'numpy.in1d': 'numpy.isin', 'numpy.linalg.multi_dot': 'numpy.linalg.multi_dot',
    'operator.add': 'numpy.add', 'operator.sub': 'numpy.subtract', 'operator.mul': 'numpy.multiply', 'operator.truediv': 'numpy.divide',
}

UFUNC1 = {'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'exp', 'log', 'log10', 'log2', 'floor', 'ceil',
          'rint', 'trunc', 'abs', 'sign', 'sinh', 'cosh', 'tanh'}
# positional parameter names (defaults that are dropped when equal)
SIGS = {
    'mean': ('a', 'axis'), 'sum': ('a', 'axis'), 'std': ('a', 'axis'), 'var': ('a', 'axis'), 'min': ('a', 'axis'),
    'max': ('a', 'axis'), 'median': ('a', 'axis'), 'argmin': ('a', 'axis'), 'argmax': ('a', 'axis'), 'prod': ('a', 'axis'),
    'nanmean': ('a', 'axis'), 'nanmin': ('a', 'axis'), 'nanmax': ('a', 'axis'), 'nanstd': ('a', 'axis'), 'nansum': ('a', 'axis'),
    'all': ('a', 'axis'), 'any': ('a', 'axis'), 'cumsum': ('a', 'axis'), 'sort': ('a', 'axis'), 'argsort': ('a', 'axis'),
    'diff': ('a', 'n', 'axis'), 'squeeze': ('a', 'axis'), 'expand_dims': ('a', 'axis'), 'flip': ('m', 'axis'),
    'repeat': ('a', 'repeats', 'axis'), 'tile': ('A', 'reps'), 'average': ('a', 'axis', 'weights'),
    'cov': ('m', 'y', 'rowvar'), 'interp': ('x', 'xp', 'fp', 'left', 'right'), 'clip': ('a', 'a_min', 'a_max'),
    'linspace': ('start', 'stop', 'num'), 'histogram': ('a', 'bins', 'range'), 'swapaxes': ('a', 'axis1', 'axis2'),
    'moveaxis': ('a', 'source', 'destination'), 'roll': ('a', 'shift', 'axis'), 'delete': ('arr', 'obj', 'axis'),
    'insert': ('arr', 'obj', 'values', 'axis'), 'append': ('arr', 'values', 'axis'), 'percentile': ('a', 'q', 'axis'),
    'linalg.norm': ('x', 'ord', 'axis'), 'genfromtxt': ('fname', 'dtype', 'comments', 'delimiter'), 'fromfile': ('file', 'dtype', 'count', 'sep', 'offset'),
    'loadtxt': ('fname', 'dtype', 'comments', 'delimiter'), 'meshgrid': None, 'unique': ('ar',), 'isin': ('a', 'b'), 'outer': ('a', 'b'),
    'cross': ('a', 'b'), 'digitize': ('x', 'bins', 'right'), 'searchsorted': ('a', 'v', 'side'), 'unravel_index': ('indices', 'shape'),
    'isclose': ('a', 'b', 'rtol', 'atol'), 'allclose': ('a', 'b', 'rtol', 'atol'), 'linalg.lstsq': ('a', 'b', 'rcond'),
    'rot90': ('m', 'k'), 'frombuffer': ('buffer', 'dtype', 'count', 'offset'),
}
METHODS = {'mean', 'sum', 'std', 'var', 'min', 'max', 'argmin', 'argmax', 'prod', 'all', 'any', 'cumsum', 'argsort',
           'squeeze', 'repeat', 'swapaxes', 'clip', 'dot', 'ravel', 'flatten', 'reshape', 'transpose', 'astype', 'copy', 'round',
           'tolist', 'item', 'conj', 'conjugate', 'nonzero', 'view_', 'diagonal', 'trace', 'searchsorted'}


def dtype_of(t):
    if t is None or t is NONE:
        return None
    if t.op in ('ext', 'str', 'class'):
        n = t.args[0]
        if t.op == 'str':
            n = n.lstrip('<>=|')
        return DT.get(n, None) and mk('str', 'dtype:' + DT[n]) or (mk('str', 'dtype:' + n) if isinstance(n, str) else t)
    if t.op == 'call' and t.args[0] == 'numpy.dtype' and t.args[1]:
        return dtype_of(t.args[1][0])
    return t


def is_floatish(d):
    return d is not None and d.op == 'str' and d.args[0] in ('dtype:float64',)


def astype(x, d):
    if d is None:
        return x
    if d.op == 'ext' or (d.op == 'str' and not d.args[0].startswith('dtype:')):
        d = dtype_of(d)
    if x.op == 'stack' and x.args[1].op == 'tuple' and d.op == 'str':
        return mk('stack', x.args[0], mk('tuple', *[astype(e, d) for e in x.args[1].args]))
    if is_floatish(d):
        # float64 conversion does not change the (real) value
        return lift(lambda y: y if y.op in ('arr', 'poly', 'num', 'tuple', 'ufunc', 'matmul', 'zeros', 'where', 'store', 'astypef') or is_scalar(y) else mk('astype', y, d), (x,)) if x.op != 'astype' else mk('astype', x, d)
    return lift(lambda y: _astype(y, d), (x,))


def untrunc(y):
    """x of trunc(x), which is written -trunc(-x) as well"""
    if y.op == 'ufunc' and y.args[0] == 'trunc':
        return y.args[1]
    if y.op == 'poly' and len(y.args[0]) == 1:
        (m, c), = y.args[0]
        if c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ufunc' and m[0][0].args[0] == 'trunc':
            return neg(m[0][0].args[1])
    return None


def _astype(y, d):
    if y.op == 'arr' and False:
        return y
    if d.op == 'str' and d.args[0].startswith('dtype:int') or d.op == 'str' and d.args[0].startswith('dtype:uint'):
        if y.op == 'num' and y.args[0].denominator == 1 and y.args[0] >= 0:
            return y
    if y.op == 'astype' and y.args[1] is d:
        return y
    if d.op == 'str' and d.args[0].startswith(('dtype:int', 'dtype:uint')) and untrunc(y) is not None:
        return _astype(untrunc(y), d)
    if y.op == 'zeros':
        return y if is_int(y.args[0]) else mk('zeros', _astype(y.args[0], d), y.args[1], d)
    if y.op == 'poly' and len(y.args[0]) == 1:
        (m, c), = y.args[0]
        if c.denominator == 1 and 0 <= c <= 255 and len(m) == 1 and m[0][1] == 1 and is_cond(m[0][0]):
            return where(m[0][0], num(c), ZERO)         # a mask scaled
    if y.op == 'where' and all(is_int(x) and 0 <= intval(x) <= 255 for x in y.args[1:]):
        return y
    return mk('astype', y, d)


def seq2arr(t):
    if t.op == 'tuple':
        return tup2arr(t)
    return t


def kwpairs(kw):
    return tuple(sorted((k, v) for k, v in kw.items()))


def bind(name, args, kw):
    sig = SIGS.get(name)
    d = dict(kw)
    if sig:
        for p, a in zip(sig, args):
            d[p] = a
        if len(args) > len(sig):
            return None
    return d


_BINUF = {'add': add, 'subtract': sub, 'multiply': mul, 'divide': div, 'power': power}


def is_int_or_bool(t):
    return t is TRUE or t is FALSE or t is ONE or t is ZERO


def np_call(name, args, kw):
    """args: tuple of terms; kw: dict name->term.  Returns a term or None if not modelled."""
    n = name
    A = args
    kw = dict((k, v) for k, v in kw.items())
    if 'out' in kw:
        return None
    if n in ('ma.mean', 'ma.sum', 'ma.max', 'ma.min', 'ma.std', 'ma.var'):
        n = name = n[3:]
    if n in ('ma.masked_array', 'ma.array') and set(kw) | ({'mask'} if len(A) == 2 and n == 'ma.masked_array' else set()) == {'mask'} and A and (len(A) == 1 or 'mask' not in kw):
        return mk('call', 'numpy.ma.masked_array', (A[0], kw['mask'] if len(A) == 1 else A[1]), ())
    if n in ('cov', 'ma.cov') and 'rowvar' in kw and len(A) == 1 and is_int_or_bool(kw['rowvar']):
        rv = kw.pop('rowvar')
        return np_call(n, (A[0],) if rv is TRUE or rv is ONE else (np_call('transpose', A, {}),), kw)
    if n == 'array' or n == 'asarray':
        x = A[0] if A else kw.pop('object', kw.pop('a', None))
        if x is None:
            return None
        d = dtype_of(A[1]) if len(A) > 1 else dtype_of(kw.pop('dtype', None))
        kw.pop('copy', None)
        kw.pop('ndmin', None) if False else None
        if kw:
            return None
        r = lift(seq2arr, (x,))
        return astype(r, d) if d is not None else r
    if n == 'copy':
        return A[0]
    if n in UFUNC1:
        if kw:
            return None
        return mk_ufunc(n, A[0]) if A[0].op not in ('tuple',) else mk_ufunc(n, tup2arr(A[0]))
    if n == 'sqrt':
        return power(A[0], num(HALF))
    if n == 'square':
        return mul(A[0], A[0])
    if n == 'reciprocal':
        return div(ONE, A[0])
    if n == 'hypot':
        return power(add(mul(A[0], A[0]), mul(A[1], A[1])), num(HALF))
    if n == 'negative':
        return neg(A[0])
    if n == 'deg2rad':
        return div(mul(A[0], PI), num(180))
    if n == 'rad2deg':
        return div(mul(A[0], num(180)), PI)
    if n in _BINUF and len(A) == 2 and not kw:
        return _BINUF[n](lift(seq2arr, (A[0],)), lift(seq2arr, (A[1],)))
    if n in ('arctan2', 'maximum', 'minimum', 'mod', 'fmod', 'remainder', 'floor_divide', 'fmax', 'fmin'):
        return mk_ufunc({'remainder': 'mod', 'floor_divide': 'floordiv'}.get(n, n), *A) if not kw else None
    if n in ('logical_and',) and not kw:
        return boolop('and', A)
    if n in ('logical_or',) and not kw:
        return boolop('or', A)
    if n == 'logical_not' and not kw:
        return lognot(A[0])
    if n in ('greater', 'less', 'greater_equal', 'less_equal', 'equal', 'not_equal') and len(A) == 2:
        return {'greater': lambda a, b: c_lt(b, a), 'less': c_lt, 'greater_equal': lambda a, b: c_le(b, a),
                'less_equal': c_le, 'equal': c_eq, 'not_equal': lambda a, b: b_not(c_eq(a, b))}[n](*A)
    if n == 'dot' and len(A) == 2:
        return matmul(A[0], A[1])
    if n == 'linalg.multi_dot' and A[0].op == 'tuple':
        return matmul(*A[0].args)
    if n == 'linalg.inv':
        return minv(A[0])
    if n == 'linalg.matrix_power' and len(A) == 2 and is_num(A[1]) and A[1].args[0] == -1:
        return minv(A[0])
    if n == 'linalg.norm':
        d = bind(n, A, kw)
        x = lift(seq2arr, (d['x'],))
        if len(d) == 1 and x.op == 'arr' and len(x.args[0]) == 1:
            s = ZERO
            for e in x.args[1]:
                s = add(s, mul(e, e))
            return power(s, num(HALF))
        ax = d.get('axis', NONE)
        r = rank_of(x)
        if set(d) <= {'x', 'axis'} and not is_scalar(x) and (ax is NONE and r == 1 or is_int(ax) and r):
            return power(np_call('sum', (mul(x, x),), {} if ax is NONE else {'axis': ax}), num(HALF))
        d['x'] = x
        return mk('call', 'numpy.linalg.norm', (), kwpairs(d))
    if n == 'transpose':
        ax = A[1] if len(A) == 2 else (mk('tuple', *A[1:]) if len(A) > 2 else kw.get('axes'))
        if ax is NONE:
            ax = None
        return transpose(lift(seq2arr, (A[0],)), ax)
    if n in ('ravel', 'flatten'):
        if kw or len(A) > 1:
            o = kw.get('order', A[1] if len(A) > 1 else None)
            if o is not None and o.op == 'str' and o.args[0] == 'C':
                return ravel(lift(seq2arr, (A[0],)))
            return mk('call', 'numpy.ravel', (A[0],), kwpairs({'order': o}))
        return ravel(lift(seq2arr, (A[0],)))
    if n == 'reshape':
        s = A[1] if len(A) == 2 else (mk('tuple', *A[1:]) if len(A) > 2 else kw.get('newshape', kw.get('shape')))
        if s is None:
            return None
        o = kw.get('order')
        if o is not None and not (o.op == 'str' and o.args[0] == 'C'):
            return mk('call', 'numpy.reshape', (A[0], s), (('order', o),))
        return reshape(lift(seq2arr, (A[0],)), s)
    if n == 'shape':
        return shape(lift(seq2arr, (A[0],)))
    if n == 'size':
        return size(A[0]) if len(A) == 1 else None
    if n == 'ndim':
        return lift(lambda y: num(rank_of(y)) if rank_of(y) is not None else mk('call', 'ndim', (y,), ()), (A[0],))
    if n in ('zeros', 'ones', 'empty', 'full'):
        s = A[0] if A else kw.get('shape')
        fill = {'zeros': ZERO, 'ones': ONE, 'empty': mk('any')}.get(n) or (A[1] if len(A) > 1 else kw.get('fill_value'))
        d = dtype_of(kw.get('dtype') or (A[1] if len(A) > 1 and n != 'full' else (A[2] if len(A) > 2 else None)))
        return mkzeros(fill, s, d)
    if n in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
        s = shape(lift(seq2arr, (A[0],)))
        fill = {'zeros_like': ZERO, 'ones_like': ONE, 'empty_like': mk('any')}.get(n) or (A[1] if len(A) > 1 else kw.get('fill_value'))
        d = dtype_of(kw.get('dtype'))
        return mkzeros(fill, s, d, like=A[0])
    if n in ('eye', 'identity') and A and is_int(A[0]) and len(A) == 1 and not kw:
        k = intval(A[0])
        if k <= 8:
            return arr((k, k), [ONE if i == j else ZERO for i in range(k) for j in range(k)])
    if n == 'diag' and len(A) == 1 and not kw:
        x = lift(seq2arr, (A[0],))
        if x.op == 'arr' and len(x.args[0]) == 1:
            k = x.args[0][0]
            return arr((k, k), [x.args[1][i] if i == j else ZERO for i in range(k) for j in range(k)])
    if n == 'astype':
        return astype(A[0], dtype_of(A[1] if len(A) > 1 else kw.get('dtype')))
    if n == 'where':
        if len(A) == 3:
            return lift(lambda c, a, b: where(c, a, b), (as_elem_cond(A[0]), A[1], A[2])) if not A[0].op == 'ite' else where(A[0], A[1], A[2])
        if len(A) == 1:
            return mk('call', 'numpy.where', (as_elem_cond(A[0]),), ())
    if n == 'searchsorted' and len(A) >= 2 and A[0].op in ('arr', 'tuple') and set(kw) <= {'side'}:
        side = A[2] if len(A) > 2 else kw.get('side')
        if side is None or side.op == 'str':
            t = count_below(A[0], A[1], side is None or side.args[0] == 'left')
            if t is not None:
                return t
    if n == 'nonzero' and len(A) == 1:
        return mk('call', 'numpy.where', (as_elem_cond(A[0]),), ())
    if n == 'linspace' and len(A) == 3 and not set(kw) - {'endpoint'} and kw.get('endpoint', TRUE) in (TRUE, FALSE) and all(is_scalar(x) for x in A) and not is_num(A[2]):
        gaps = sub(A[2], ONE) if kw.get('endpoint', TRUE) is TRUE else A[2]
        return add(A[0], mul(div(sub(A[1], A[0]), gaps), mk('range', ZERO, A[2], ONE)))
    if n == 'arange':
        k = [x for x in A]
        d = dtype_of(kw.get('dtype'))
        if 'stop' in kw:
            return None
        if len(k) == 1:
            k = [ZERO] + k
        if len(k) == 2:
            k = k + [kw.get('step', ONE)]
        r = mk('range', *k[:3])
        if d is not None and not is_floatish(d) and not (d.op == 'str' and d.args[0] == 'dtype:int64'):
            return astype(r, d)
        return r
    if n in ('stack', 'dstack', 'concatenate', 'vstack', 'hstack', 'column_stack'):
        return np_stack(n, A, kw)
    if n in ('sum', 'mean', 'min', 'max', 'prod', 'std', 'var', 'median', 'nanmin', 'nanmax', 'nanmean', 'all', 'any', 'argmin', 'argmax',
             'nanstd', 'nansum', 'cumsum', 'squeeze', 'argsort', 'sort'):
        if n == 'squeeze' and not kw and len(A) == 1 and A[0].op == 'tuple' and len(A[0].args) == 1 and A[0].args[0].op in ('tuple', 'map', 'arr'):
            A = (A[0].args[0],) + tuple(A[1:])          # an axis of one around it
        return reduction(n, A, kw)
    if n in ('percentile', 'quantile', 'nanpercentile', 'nanquantile'):
        r = percentile(n, A, kw)
        if r is not None:
            return r
    if n == 'round':
        if (len(A) == 1 and not kw) or (len(A) == 2 and A[1] is ZERO):
            return mk_ufunc('rint', A[0])
    if n == 'isnan' or n == 'isfinite' or n == 'isinf':
        x = A[0]
        return lift(lambda y: atom_cond(mk(n, y)) if y.op != 'num' else (FALSE if n != 'isfinite' else TRUE), (x,))
    if n == 'tolist' or n == 'item' and len(A) == 1:
        x = A[0]
        if x.op == 'arr' and len(x.args[0]) == 1:
            return mk('tuple', *x.args[1])
        return x
    if n in ('conj', 'conjugate'):
        return None
    if n in ('float64', 'double', 'float_', 'float'):
        return fl(A[0]) if A else ZERO
    if n in ('int64', 'int_', 'int', 'int32', 'int16', 'uint8', 'uint16', 'uint32', 'float32', 'bool_', 'int8'):
        if A:
            return astype(A[0], dtype_of(mk('ext', 'numpy.' + n)))
    if n == 'modf' and len(A) == 1 and not kw:
        w = astype(A[0], dtype_of(mk('ext', 'numpy.int64')))
        return mk('tuple', sub(A[0], w), w)
    if n == 'repeat':
        d = bind(n, A, kw)
        x = lift(seq2arr, (d['a'],)) if d and 'a' in d else None
        r = rank_of(x) if x is not None else None
        if r and is_int(d.get('axis', NONE)) and 'repeats' in d and d['repeats'].op not in ('tuple', 'arr') and not rank_of(d['repeats']):
            k = intval(d['axis']) % r
            t = tiled(x, [d['repeats'] if j == k else ONE for j in range(r)])
            if t is not None:
                return t
    if n == 'tile':
        d = bind(n, A, kw)
        if d and set(d) == {'A', 'reps'}:
            x = lift(seq2arr, (d['A'],))
            t = tiled(x, d['reps'].args if d['reps'].op == 'tuple' else (d['reps'],)) if not rank_of(d['reps']) or d['reps'].op == 'tuple' else None
            if t is not None:
                return t
    if n == 'broadcast_to' and len(A) == 2 and not kw and A[1].op == 'tuple':
        x = lift(seq2arr, (A[0],))
        sh, out = shape(x), A[1].args
        if sh.op == 'tuple' and rank_of(x) == len(sh.args) <= len(out):
            g = len(out) - len(sh.args)
            return spread(x, out, [None if j < g or sh.args[j - g] is ONE and out[j] is not ONE else j - g for j in range(len(out))])
    if n == 'expand_dims':
        d = dict(zip(('a', 'axis'), A))
        d.update(kw)
        if 'a' in d and 'axis' in d and is_int(d['axis']):
            return lift(lambda x: newaxis(x, intval(d['axis'])), (d['a'],))
        return None
    if n == 'array_equal' and len(A) == 2:
        return atom_cond(mk('call', 'numpy.array_equal', tuple(sorted(A)), ()))
    if n == 'multiply.reduce' or n == 'finfo' or n == 'iinfo':
        return None
    if n == 'swapaxes' and len(A) == 3 and all(is_int(x) for x in A[1:]):
        r = rank_of(A[0])
        if r:
            ax = list(range(r))
            i, j = intval(A[1]) % r, intval(A[2]) % r
            ax[i], ax[j] = ax[j], ax[i]
            return transpose(A[0], mk('tuple', *[num(k) for k in ax]))
    if n == 'moveaxis' and len(A) == 3 and all(is_int(x) for x in A[1:]):
        r = rank_of(A[0])
        if r:
            s, d = intval(A[1]) % r, intval(A[2]) % r
            ax = [k for k in range(r) if k != s]
            ax.insert(d, s)
            return transpose(A[0], mk('tuple', *[num(k) for k in ax]))
    if n in ('flipud', 'fliplr') and len(A) == 1:
        rev = mk('slice', NONE, NONE, MINUS1)
        return index_items(A[0], (rev,) if n == 'flipud' else (FULL, rev))
    if n == 'flip' and len(A) + len(kw) == 2:
        ax = A[1] if len(A) == 2 else kw.get('axis')
        rev = mk('slice', NONE, NONE, MINUS1)
        if ax is not None and is_int(ax) and intval(ax) >= 0:
            return index_items(A[0], (FULL,) * intval(ax) + (rev,))
    if n == 'trace' and len(A) == 1 and A[0].op == 'arr' and len(A[0].args[0]) == 2:
        k = A[0].args[0][0]
        s = ZERO
        for i in range(k):
            s = add(s, A[0].args[1][i * k + i])
        return s
    if n == 'cross' and len(A) == 2 and not kw:
        a, b = lift(seq2arr, (A[0],)), lift(seq2arr, (A[1],))
        if a.op == 'arr' and b.op == 'arr' and a.args[0] == (3,) and b.args[0] == (3,):
            x, y = a.args[1], b.args[1]
            f = lambda i, j: sub(mul(x[i], y[j]), mul(x[j], y[i]))
            return arr((3,), [f(1, 2), f(2, 0), f(0, 1)])
    if n == 'outer' and len(A) == 2:
        a, b = lift(seq2arr, (A[0],)), lift(seq2arr, (A[1],))
        if a.op == 'arr' and b.op == 'arr':
            return arr((len(a.args[1]), len(b.args[1])), [mul(x, y) for x in a.args[1] for y in b.args[1]])
    if n == 'count_nonzero' and len(A) == 1:
        return reduction('sum', (as_elem_cond(A[0]),), kw)
    return None


def _white(x):
    return (x.op == 'str' and x.args[0] and x.args[0].isspace()) or (x.op == 'ext' and x.args[0] == 'os.linesep')


def strip_num(t):
    """float() and int() ignore surrounding white space"""
    while t.op == 'call' and t.args[0] in ('.strip', '.lstrip', '.rstrip') and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


def strip_white(t):
    """the text whose white-space separated words are those of t"""
    gone = False
    x = t
    while x.op == 'call' and isinstance(x.args[0], str):
        f, a = x.args[0], x.args[1]
        if f in ('.strip', '.lstrip', '.rstrip') and len(a) == 1:
            x = a[0]
        elif f == '.join' and len(a) == 2 and _white(a[0]) and a[1].op == 'call' and a[1].args[0] == '.split' and len(a[1].args[1]) == 1:
            x = a[1].args[1][0]
        elif f == '.replace' and len(a) == 3 and _white(a[1]) and _white(a[2]):
            x = a[0]
        elif f == '.replace' and len(a) == 3 and (a[1].op == 'ext' or a[1].args[0] in ('\n', '\r', '\r\n')) and _white(a[1]) and a[2].op == 'str' and a[2].args[0] == '':
            gone = True
            x = a[0]
        else:
            break
    if gone and not (x.op == 'index' and x.args[0].op == 'call' and x.args[0].args[0] == '.readlines'):
        return t                 # only the end of a line of a file is known to hold the one newline
    return x


def fl(x):
    def f(y):
        y = strip_num(y)
        if y.op == 'str':
            try:
                return num(float(y.args[0]))
            except ValueError:
                return mk('call', 'float', (y,), ())
        if y.op in ('num', 'poly', 'ufunc') or (is_scalar(y) and y.op != 'str'):
            return y
        if y.op == 'call' and y.args[0] == 'float':
            return y
        return mk('call', 'float', (y,), ())
    return lift(f, (x,))


def to_int(x):
    def f(y):
        y = strip_num(y)
        if y.op == 'num':
            return num(int(y.args[0]))
        if y.op == 'str':
            try:
                return num(int(y.args[0]))
            except ValueError:
                pass
        if y.op == 'call' and y.args[0] in ('int', 'len'):
            return y
        if untrunc(y) is not None:
            return f(untrunc(y))
        return mk('call', 'int', (y,), ())
    return lift(f, (x,))


def as_elem_cond(t):
    """an array used as a mask"""
    return t


def boolop(kind, A):
    if all(is_cond(a) for a in A):
        return (b_and if kind == 'and' else b_or)(*A)
    cs = [as_cond(a) if (is_cond(a)) else atom_cond(mk('truth', a)) if a.op != 'ite' else as_cond(a) for a in A]
    return (b_and if kind == 'and' else b_or)(*cs)


def lognot(a):
    return b_not(as_cond(a))


def mkzeros(fill, s, d=None, like=None):
    def f(fill, s):
        if s.op == 'arr' and len(s.args[0]) == 1:
            s2 = mk('tuple', *s.args[1])
        else:
            s2 = s
        if s2.op == 'tuple' and len(s2.args) == 1:
            s2 = s2.args[0]
        if s2.op == 'call' and s2.args[0] == 'int' and s2.args[1][0].op in ('index',) and s2.args[1][0].args[0].op == 'shape':
            s2 = s2.args[1][0]
        dd = d
        if dd is not None and is_floatish(dd):
            dd = None
        if dd is None:
            if s2.op == 'tuple' and all(is_int(x) for x in s2.args):
                k = 1
                for x in s2.args:
                    k *= intval(x)
                if 0 < k <= 64 and fill.op != 'any':
                    return arr(tuple(intval(x) for x in s2.args), [fill] * k)
            if is_int(s2) and 0 < intval(s2) <= 64 and fill.op != 'any':
                return arr((intval(s2),), [fill] * intval(s2))
            return mk('zeros', fill, s2)
        return mk('zeros', fill, s2, dd)
    return lift(f, (fill, s))


def np_stack(n, A, kw):
    def f(seq, *rest):
        ax = kw.get('axis', A[1] if len(A) > 1 else ZERO)
        if n == 'dstack':
            # planes of rank 2 stacked on the last axis
            if seq.op == 'tuple' and any(rank_of(x) == 3 for x in seq.args):
                if all(rank_of(x) in (2, 3) for x in seq.args):
                    pl = planes(tuple(mk_stack(num(-1), mk('tuple', x)) if rank_of(x) == 2 else x for x in seq.args))
                    if pl is not None:
                        return mk_stack(num(-1), mk('tuple', *pl))
                return mk('call', 'numpy.concatenate', (mk('tuple', *[mk_stack(num(-1), mk('tuple', x)) if rank_of(x) == 2 else x for x in seq.args]),),
                          kwpairs({'axis': num(2)}))
            if seq.op != 'tuple' or len(set(rank_of(x) for x in seq.args)) == 1 and (rank_of(seq.args[0]) == 2 or not any(x.op in ('stack', 'where') for x in seq.args)):
                return mk_stack(num(-1), seq)
            return mk('call', 'numpy.dstack', (seq,), ())
        if n == 'stack':
            if seq.op == 'tuple' and is_int(ax):
                rows = [tup2arr(x) for x in seq.args]
                if all(x.op == 'arr' and len(x.args[0]) == 1 and x.args[0] == rows[0].args[0] for x in rows):
                    r = tup2arr(mk('tuple', *rows))
                    if intval(ax) == 0:
                        return r
                    if intval(ax) in (1, -1):
                        return transpose(r)
                rk = rank_of(seq.args[0]) if seq.args else None
                if rk is not None and intval(ax) == rk:
                    ax = num(-1)
            return mk_stack(ax, seq)
        if n == 'concatenate' and seq.op == 'tuple' and is_int(ax) and intval(ax) in (2, -1) and seq.args and all(rank_of(x) == 3 for x in seq.args):
            ax = num(2)
            pl = planes(seq.args)
            if pl is not None:
                return mk_stack(num(-1), mk('tuple', *pl))
        if n == 'concatenate' and seq.op == 'tuple' and ax is ZERO:
            parts = [tup2arr(x) for x in seq.args]
            if all(p.op == 'arr' and len(p.args[0]) == 1 for p in parts):
                el = [e for p in parts for e in p.args[1]]
                return arr((len(el),), el)
            if all(p.op == 'arr' and len(p.args[0]) == 2 and p.args[0][1] == parts[0].args[0][1] for p in parts):
                el = [e for p in parts for e in p.args[1]]
                return arr((sum(p.args[0][0] for p in parts), parts[0].args[0][1]), el)
        if n == 'hstack' and seq.op == 'tuple':
            parts = [tup2arr(x) for x in seq.args]
            if all(p.op == 'arr' and len(p.args[0]) == 1 for p in parts):
                el = [e for p in parts for e in p.args[1]]
                return arr((len(el),), el)
            if all(p.op == 'arr' and len(p.args[0]) == 2 and p.args[0][0] == parts[0].args[0][0] for p in parts):
                return transpose(np_stack('concatenate', (mk('tuple', *[transpose(p) for p in parts]),), {}))
        if n == 'vstack' and seq.op == 'tuple':
            parts = [tup2arr(x) for x in seq.args]
            parts = [reshape(p, mk('tuple', ONE, num(p.args[0][0]))) if p.op == 'arr' and len(p.args[0]) == 1 else p for p in parts]
            if all(p.op == 'arr' for p in parts):
                return np_stack('concatenate', (mk('tuple', *parts),), {})
            if all(rank_of(p) == 1 for p in parts):
                return mk_stack(ZERO, mk('tuple', *parts))
        if n == 'column_stack' and seq.op == 'tuple':
            parts = [tup2arr(x) for x in seq.args]
            if all(p.op == 'arr' and len(p.args[0]) == 1 for p in parts):
                return transpose(tup2arr(mk('tuple', *parts)))
            if all(rank_of(p) == 1 for p in parts):
                return mk_stack(num(-1), mk('tuple', *parts))
        k = {} if n != 'concatenate' else {'axis': ax}
        return mk('call', 'numpy.' + n, (seq,), kwpairs(k))
    return lift(f, (A[0],))


def planes(parts):
    """the planes that three dimensional arrays joined along the last axis consist of"""
    out = []
    for x in parts:
        if x.op == 'stack' and x.args[0] is MINUS1 and x.args[1].op == 'tuple':
            out.extend(x.args[1].args)
        elif x.op == 'index' and x.args[1] == (FULL, FULL, NONE) and rank_of(x.args[0]) == 2:
            out.append(x.args[0])
        else:
            return None
    return out


def mk_stack(ax, seq):
    if seq.op == 'tuple' and len(seq.args) == 1 and is_int(ax) and rank_of(seq.args[0]) and -rank_of(seq.args[0]) - 1 <= intval(ax) <= rank_of(seq.args[0]):
        # one array with an axis of length one added
        r = rank_of(seq.args[0])
        k = intval(ax) % (r + 1)
        return index_items(seq.args[0], (FULL,) * k + (NONE,) + (FULL,) * (r - k))
    if seq.op == 'repeat' and len(seq.args[0].args) == 1 and is_int(ax):
        x = seq.args[0].args[0]
        r = rank_of(x)
        sh = shape(x)
        if r and sh.op == 'tuple' and -r - 1 <= intval(ax) <= r:
            k = intval(ax) % (r + 1)
            return spread(x, sh.args[:k] + (seq.args[1],) + sh.args[k:], list(range(k)) + [None] + list(range(k, r)))
    if is_int(ax) and intval(ax) > 0:
        el = seq.args[0] if seq.op == 'tuple' and seq.args else seq.args[1] if seq.op == 'map' else None
        rk = rank_of(el) if el is not None else None
        if rk == intval(ax) or rk is None and intval(ax) == 2:
            ax = num(-1)
    return mk('stack', ax, seq)


WHOLE = {'sum', 'mean', 'min', 'max', 'prod', 'std', 'var', 'median', 'nanmin', 'nanmax', 'nanmean', 'nanstd', 'nansum'}


def percentile(n, A, kw):
    """percentiles of all entries; the ends and the middle by their own names"""
    d = dict(kw)
    for p, a in zip(('a', 'q'), A):
        d[p] = a
    if len(A) > 2 or set(d) != {'a', 'q'}:
        return None
    q = seq2arr(d['q'])
    if q.op == 'arr' and len(q.args[0]) == 1 and all(x.op == 'num' for x in q.args[1]):
        xs = [percentile(n, (d['a'], x), {}) for x in q.args[1]]
        return None if None in xs else arr(q.args[0], xs)
    if q.op != 'num':
        return None
    k = mul(q, num(100)) if n.endswith('quantile') else q
    nan = 'nan' if n.startswith('nan') else ''
    for v, name in ((0, 'min'), (50, 'median'), (100, 'max')):
        if k is num(v):
            return reduction(nan + name, (d['a'],), {})
    x = d['a']
    while x.op in ('reshape', 'transpose') and isinstance(x.args[0], T):
        x = x.args[0]
    return mk('call', 'numpy.' + nan + 'percentile', (), kwpairs({'a': x, 'q': k}))


def reduction(n, A, kw):
    d = dict(kw)
    for p, a in zip(('a', 'axis'), A):
        d[p] = a
    if len(A) > 2:
        return None
    if 'a' not in d:
        return None
    if d.get('axis') is NONE:
        del d['axis']
    if d.get('keepdims') is FALSE:
        del d['keepdims']

    def f(x, ax):
        x = seq2arr(x)
        if ax is NONE and n in WHOLE and set(d) == {'a'}:
            while x.op in ('reshape', 'transpose') and isinstance(x.args[0], T):
                x = x.args[0]               # whatever order the entries are in
        kk = dict(d)
        kk['a'] = x
        if ax is not NONE:
            kk['axis'] = ax
        if n == 'sum' and x.op == 'poly':
            rk = rank_of(x)
            if rk is None:
                rs = set(rank_of(a) for m, c in x.args[0] for a, e in m if not is_scalar(a))
                rk = max(rs) if rs and None not in rs else None
            axv = kk.get('axis')
            if rk == 2 and len(kk) == 2 and is_int(axv) and intval(axv) in (1, -1) or rk == 1 and set(kk) <= {'a', 'axis'} and (axv is None or is_int(axv) and intval(axv) in (0, -1)):
                r = rowsum(x)
                if r is not None and not (r.op == 'call' and rk == 1):
                    return r
        if n in ('sum', 'mean', 'std', 'var', 'max', 'min', 'nansum', 'nanmean') and is_int(kk.get('axis', NONE)) and intval(kk['axis']) < 0 and rank_of(x):
            kk['axis'] = num(intval(kk['axis']) + rank_of(x))
        if x.op == 'arr' and len(kk) == 1:
            el = x.args[1]
            if n in ('sum', 'nansum'):
                s = ZERO
                for e in el:
                    s = add(s, e)
                return s
            if n == 'mean' and el:
                s = ZERO
                for e in el:
                    s = add(s, e)
                return div(s, num(len(el)))
            if n == 'prod':
                s = ONE
                for e in el:
                    s = mul(s, e)
                return s
            if n in ('max', 'min') and el:
                s = el[0]
                for e in el[1:]:
                    s = mk_ufunc('maximum' if n == 'max' else 'minimum', s, e)
                return s
        if x.op == 'arr' and len(kk) == 2 and is_int(kk.get('axis', NONE)) and len(x.args[0]) == 2 and n in ('sum', 'mean'):
            a = intval(kk['axis']) % 2
            r, c = x.args[0]
            el = x.args[1]
            out = []
            for j in range(c if a == 0 else r):
                s = ZERO
                for i in range(r if a == 0 else c):
                    s = add(s, el[i * c + j] if a == 0 else el[j * c + i])
                out.append(div(s, num(r if a == 0 else c)) if n == 'mean' else s)
            return arr((len(out),), out)
        if n in ('all', 'any') and is_int(kk.get('axis', NONE)) and intval(kk['axis']) < 0 and cond_rank(x):
            kk['axis'] = num(intval(kk['axis']) + cond_rank(x))
        if n in ('all', 'any') and is_cond(x):
            return atom_cond(mk('call', 'numpy.' + n, (), kwpairs(kk))) if x.op != 'bool' else x
        if n in ('all', 'any') and len(kk) == 1:
            return atom_cond(mk('call', 'numpy.' + n, (), kwpairs(kk)))
        if n in ('sum', 'mean') and x.op == 'map' and x.args[2] is TRUE and len(kk) == 1:
            s = mk_sum(x.args[0], x.args[1], x.args[3])
            return s if n == 'sum' else div(s, x.args[0])
        if n in ('sum', 'mean', 'max', 'min', 'std', 'nansum', 'nanmean', 'nanmax', 'nanmin'):
            # positive numeric content
            if x.op == 'poly' and n not in ('std',):
                pr = dict(x.args[0])
                if len(pr) == 1:
                    (m, c), = pr.items()
                    if c > 0 and c != 1 or (c < 0 and n in ('sum', 'mean', 'nansum', 'nanmean')):
                        kk['a'] = from_poly({m: Fraction(1)})
                        return mul(num(c), mk('call', 'numpy.' + n, (), kwpairs(kk)))
        return mk('call', 'numpy.' + n, (), kwpairs(kk))
    return lift(f, (d['a'], d.get('axis', NONE)))


def mk_sum(n, body, bv):
    """sum of body over bv in [0,n)"""
    p = to_poly(body)
    out = ZERO
    free = lambda t: not contains(t, lambda x: x is bv)
    for m, c in p.items():
        inn, outp = [], num(c)
        for a, e in m:
            if free(a):
                outp = mul(outp, power(a, num(e)) if e != 1 else a)
            else:
                inn.append((a, e))
        if not inn:
            out = add(out, mul(outp, n))
        else:
            b = from_poly({tuple(inn): Fraction(1)})
            out = add(out, mul(outp, sum_atom(n, b, bv)))
    return out


def sum_atom(n, b, bv):
    if is_int(n) and 0 <= intval(n) <= 32:
        s = ZERO
        for k in range(intval(n)):
            s = add(s, subst(b, {bv: num(k)}))
        return s
    # canonical bound variable
    tmp = fresh_sym('$s', scalar=True)
    b2 = subst(b, {bv: tmp})
    (b3,) = close_over([tmp], b2)
    return mk('sum', n, b3, mk('bv', b2.mbv + 1))


REBUILD.update({
    'sum': lambda n, b, bv: mk_sum(n, b, bv),
    'zeros': lambda fill, s, *d: mkzeros(fill, s, d[0] if d else None),
    'astype': lambda x, d: astype(x, d),
    'call': lambda f, a, k: rebuild_call(f, a, k),
    'stack': lambda ax, seq: mk_stack(ax, seq),
    'dict': lambda ps: mkdict(ps),
})


def rebuild_call(f, a, k):
    if isinstance(f, str) and f.startswith('numpy.'):
        r = np_call(f[6:], a, dict(k))
        if r is not None:
            return r
    if f == 'float' and len(a) == 1:
        return fl(a[0])
    if f == 'int' and len(a) == 1:
        return to_int(a[0])
    return mk('call', f, a, k)


def _re_call(f, args, kw):
    """keep the text normalisations true under substitution"""
    if not kw and len(args) == 1:
        if f == 'float':
            return fl(args[0])
        if f == 'int':
            return to_int(args[0])
        if f == '.split':
            return mk('call', f, (strip_white(args[0]),), ())
    if f == 'numpy.sum' and not args and len(kw) == 1 and kw[0][1].op in ('tuple', 'arr') and all(is_num(x) for x in kw[0][1].args[-1 if kw[0][1].op == 'arr' else slice(None)]):
        return np_call('sum', (kw[0][1],), {})
    return mk('call', f, args, kw)


REBUILD['call'] = _re_call
