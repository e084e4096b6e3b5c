"""Structural operators on terms: indexing, stores, shapes, matrix products, ..."""
from .terms import *
from . import terms as _t

SHAPE_KEEP_CALLS = {'scipy.linalg.fractional_matrix_power', 'scipy.linalg.sqrtm', 'scipy.linalg.inv', 'numpy.nan_to_num', 'numpy.cumsum', 'numpy.clip', 'numpy.isnan', 'numpy.isfinite'}


REDUCE = set('numpy.' + n for n in 'sum mean std var max min nansum nanmean nanmax nanmin median all any ma.mean'.split())


def idx_items(i):
    if i.op == 'tuple':
        return i.args
    return (i,)


def norm_slice(lo, hi, st):
    if is_num(st) and st.args[0] == 1:
        st = NONE
    if is_num(lo) and lo.args[0] == 0 and (st is NONE or is_num(st) and st.args[0] > 0):
        lo = NONE
    return mk('slice', lo, hi, st)


def scalar_idx(i):
    return is_scalar(i) or i.op in ('bv',) or (i.op == 'call' and i.args[0] in ('int', 'len')) or i.op == 'dimlen' \
        or (i.op == 'poly' and all(scalar_idx(a) for m, c in i.args[0] for a, e in m)) \
        or i.op == 'index' and int_array(i.args[0]) and rank_of(i) == 0


def int_array(t):
    """surely an array of whole numbers (an index by position, not a mask)"""
    if t.op == 'tuple':
        return len(t.args) > 0 and all(scalar_idx(x) for x in t.args)
    if t.op == 'range':
        return all(x.op != 'num' or x.args[0].denominator == 1 for x in t.args)
    if t.op == 'call' and t.args[0] in ('numpy.argsort',):
        return bool(rank_of(t))
    if t.op == 'index':
        return int_array(t.args[0]) and bool(rank_of(t))
    if t.op == 'astype':
        return t.args[1].op == 'str' and t.args[1].args[0] in ('dtype:int64', 'dtype:int32') and bool(rank_of(t))
    return False


def norm_items(items):
    items = list(items)
    while items and items[-1] is ELL and NONE not in items[:-1]:
        items.pop()
    # strip trailing full slices / ellipsis
    while items and items[-1] is ELL:
        items.pop()
    if not any(x is ELL for x in items):
        while items and items[-1] is FULL:
            items.pop()
    return tuple(items)


def cond_rank(x):
    """dimensions of an elementwise condition"""
    if x.op in ('bdd', 'ite'):
        rs = [cond_rank(y) for y in x.args]
    elif x.op in ('pos', 'eq', 'zero'):
        rs = [rank_of(y) for y in x.args]
    else:
        return 0 if is_const(x) else rank_of(x)
    return max(rs) if None not in rs else None


def least_rank(x):
    """an elementwise condition has at least this many dimensions"""
    if x.op in ('bdd', 'ite'):
        return max(least_rank(y) for y in x.args)
    if x.op in ('pos', 'eq', 'zero'):
        rs = [rank_of(a) for y in x.args for a in [y] + ([a for m, _ in y.args[0] for a, _e in m] if y.op == 'poly' else [])]
        return max([r for r in rs if r is not None] or [0])
    return 0 if is_const(x) else rank_of(x) or 0


def rank_of(t):
    if t.op == 'tuple' and t.args and all(scalar_idx(x) for x in t.args):
        return 1
    if t.op == 'sym':
        return SYMINFO.get(t.args[0], {}).get('rank')
    if t.op == 'call' and t.args[0] == 'csv.reader':
        return 2
    if t.op == 'arr':
        return len(t.args[0])
    if t.op in ('store', 'storemap'):
        return rank_of(t.args[0])
    if t.op == 'matmul':
        a, b = rank_of(t.args[0]), rank_of(t.args[-1])
        return None if a not in (1, 2) or b not in (1, 2) else a + b - 2
    if t.op == 'rowdot':
        return 1
    if t.op == 'call' and t.args[0] in ('numpy.cov', 'numpy.ma.cov', 'scipy.linalg.fractional_matrix_power', 'scipy.linalg.sqrtm', 'scipy.linalg.inv', 'numpy.linalg.pinv') or t.op == 'minv':
        return 2
    if t.op == 'call' and t.args[0] in REDUCE and 'axis' in dict(t.args[2]) and 'a' in dict(t.args[2]):
        d = dict(t.args[2])
        r = rank_of(d['a'])
        if r and is_int(d['axis']) and d.get('keepdims', FALSE) is FALSE:
            return r - 1
        return None
    if t.op == 'call' and t.args[0] in ('numpy.argsort', 'numpy.sort') and set(dict(t.args[2])) == {'a'} and not t.args[1]:
        return rank_of(dict(t.args[2])['a'])
    if t.op in ('grid', 'spread'):
        return len(t.args[1].args)
    if t.op == 'range':
        return 1
    if t.op in ('zeros',):
        s = t.args[1]
        if s.op == 'tuple':
            return len(s.args)
        if is_scalar(s):
            return 1
        return None
    if t.op == 'reshape':
        s = t.args[1]
        return len(s.args) if s.op == 'tuple' else None
    if t.op == 'poly':
        rs = set()
        for m, c in t.args[0]:
            for a, e in m:
                if not is_scalar(a):
                    r = rank_of(a)
                    if r != 0:
                        rs.add(r)
        if rs and None not in rs:
            return max(rs)
        return None
    if t.op == 'where' and is_const(t.args[1]) and is_const(t.args[2]) and is_cond(t.args[0]):
        return least_rank(t.args[0]) or None
    if t.op in ('where',):
        for x in t.args[1:]:
            r = rank_of(x)
            if r:
                return r
        return cond_rank(t.args[0]) or None
    if t.op == 'ufunc':
        for x in t.args[1:]:
            if isinstance(x, T):
                r = rank_of(x)
                if r:
                    return r
        return None
    if t.op == 'astype' or t.op == 'call' and t.args[0] == 'numpy.ma.masked_array' and t.args[1]:
        return rank_of(t.args[0] if t.op == 'astype' else t.args[1][0])
    if t.op == 'call' and t.args[0] == '.ReadAsArray' and t.args[1] and t.args[1][0].op == 'call' and t.args[1][0].args[0] == '.GetRasterBand':
        return 2
    if t.op == 'stack':
        for x in (t.args[1].args if t.args[1].op == 'tuple' else (t.args[1].args[1],) if t.args[1].op == 'map' else ()):
            r = rank_of(x)
            if r is not None:
                return r + 1
        return None
    if t.op == 'call' and t.args[0] == 'skimage.transform.warp' and len(t.args[1]) == 2 and t.args[1][1].op == 'tuple' and len(t.args[1][1].args) == 2:
        return 2                    # sampled where (rows, columns) say
    if t.op == 'call' and t.args[0] == 'numpy.concatenate' and t.args[1] and t.args[1][0].op == 'tuple':
        for x in t.args[1][0].args:
            r = rank_of(x)
            if r is not None:
                return r
        return None
    if t.op == 'ite':
        a, b = rank_of(t.args[1]), rank_of(t.args[2])
        return a if a == b else None
    if t.op == 'transpose' and len(t.args) == 1:
        return rank_of(t.args[0])
    if t.op == 'index':
        r = rank_of(t.args[0])
        if r is None:
            return None
        for i in t.args[1]:
            if i is ELL or i.op == 'slice':
                continue
            if scalar_idx(i):
                r -= 1
            elif i is NONE:
                r += 1
            elif int_array(i) and not any(scalar_idx(x) or x is not i and x.op != 'slice' for x in t.args[1]):
                r += rank_of(i) - 1
            else:
                return None
        return r
    if is_scalar(t):
        return 0
    return None


def expand_ell(obj, items):
    if ELL in items:
        r = rank_of(obj)
        if r is not None:
            k = items.index(ELL)
            n = r - (len(items) - 1)
            if n >= 0:
                items = items[:k] + (FULL,) * n + items[k + 1:]
    return items


def index(obj, i):
    return lift(_index, (obj, i))


def dict_chain(t):
    """the entries of a dictionary filled under symbolic keys, the last one first; None when t is no such dictionary"""
    out = []
    while t.op == 'store' and len(t.args) == 3:
        items = t.args[1]
        out.append((items[0] if len(items) == 1 else mk('tuple', *items), t.args[2]))
        t = t.args[0]
    if t.op != 'dict' or not out:
        return None
    return out + list(t.args[0])


def _index(obj, i):
    if obj.op == 'store':
        ch = dict_chain(obj)
        if ch is not None:
            r = mk('index', mk('dict', ()), (i,))
            for k, v in reversed(ch):
                r = ite(c_eq(i, k), v, r)
            return r
    return index_items(obj, idx_items(i), i.op != 'tuple')


def _intlike(i):
    return is_int(i)


def _isidx(t):
    if t.op == 'poly':
        return all(_isidx(a) for m, c in t.args[0] for a, e in m)
    return is_scalar(t) and t.op != 'slice' or t.op == 'call' and isinstance(t.args[0], str) and t.args[0].startswith(('bisect.', 'seconds by the local clock'))


def index_items(obj, items, single=True):
    items = expand_ell(obj, tuple(items))
    items = norm_items(items)
    o = obj.op
    if not items:
        return obj
    if len(items) == 1 and items[0].op == 'call' and items[0].args[0] == 'numpy.where' and len(items[0].args[1]) == 1 and is_cond(items[0].args[1][0]):
        items = items[0].args[1]            # the entries where the condition holds
    if o == 'ite' and n_leaves(obj) <= 32:
        return ite(atom_cond(obj.args[0]), index_items(obj.args[1], items), index_items(obj.args[2], items))
    first = items[0]
    if o == 'reshape' and NONE in items and obj.args[1].op == 'tuple' and all(x is FULL or x is NONE for x in items) \
            and sum(1 for x in items if x is FULL) == len(obj.args[1].args):
        # axes of one put in between
        d = list(obj.args[1].args)
        return reshape(obj.args[0], mk('tuple', *[num(1) if x is NONE else d.pop(0) for x in items]))
    if first.op == 'slice':
        first = fixslice(first)
        if first is FULL and len(items) == 1:
            return obj
        items = (first,) + items[1:]
    if o == 'call' and obj.args[0] == 'numpy.sort' and not obj.args[1] and [k for k, _ in obj.args[2]] == ['a'] and len(items) == 1 and _intlike(first) and intval(first) in (0, -1):
        x = obj.args[2][0][1]
        if rank_of(x) == 1 or x.op == 'reshape' and (x.args[1] is num(-1) or x.args[1].op == 'tuple' and len(x.args[1].args) == 1):
            while x.op in ('reshape', 'transpose') and isinstance(x.args[0], T):
                x = x.args[0]
            return mk('call', 'numpy.max' if intval(first) else 'numpy.min', (), (('a', x),))
    if o == 'strcat' and len(items) == 1 and _intlike(first) and intval(first) in (0, -1) and alphabet(obj.args[0][intval(first)]):
        return obj.args[0][intval(first)]
    if o in ('tuple', 'str') and len(items) == 1:
        seq = obj.args if o == 'tuple' else obj.args[0]
        if _intlike(first):
            k = intval(first)
            if -len(seq) <= k < len(seq):
                r = seq[k]
                return r if o == 'tuple' else const(r)
            return mk('index_error', obj, first)
        if first.op == 'bool' and o == 'tuple':
            return seq[int(first.args[0])]
        if first.op == 'slice' and all(x is NONE or _intlike(x) for x in first.args):
            sl = slice(*[None if x is NONE else intval(x) for x in first.args])
            return mk('tuple', *seq[sl]) if o == 'tuple' else const(seq[sl])
    if o == 'tuple' and len(items) > 1 and _intlike(first):
        x = index_items(obj, (first,))
        return index_items(x, items[1:])
    if o == 'tuple' and len(items) == 2 and _intlike(items[1]) and _isidx(first):
        rows = obj.args
        if rows and all(x.op == 'tuple' and len(x.args) == len(rows[0].args) for x in rows) and -len(rows[0].args) <= intval(items[1]) < len(rows[0].args):
            return index_items(mk('tuple', *[x.args[intval(items[1])] for x in rows]), (first,))
    if o == 'tuple' and len(items) == 1 and len(obj.args) > 1 and _isidx(first) and all(x.op == 'num' for x in obj.args) and obj.args[0] is not ZERO:
        k = obj.args[0]
        return add(k, index_items(mk('tuple', *[sub(x, k) for x in obj.args]), items))
    if o == 'index' and len(obj.args[1]) == 1 and len(items) == 1 and _intlike(first) and obj.args[0].op == 'tuple' and _isidx(obj.args[1][0]):
        rows = obj.args[0].args
        if rows and all(x.op == 'tuple' and len(x.args) == len(rows[0].args) for x in rows) and -len(rows[0].args) <= intval(first) < len(rows[0].args):
            return index_items(mk('tuple', *[x.args[intval(first)] for x in rows]), obj.args[1])
    if o == 'dict' and len(items) == 1:
        return dict_get(obj, first, mk('index', obj, items))
    if o == 'arr':
        r = _arr_index(obj, items)
        if r is not None:
            return r
    if o == 'shape' and len(items) == 1 and _intlike(first):
        r = rank_of(obj.args[0])
        if r and intval(first) < 0:
            return mk('index', obj, (num(intval(first) + r),))
    if o == 'repeat' and len(items) == 1 and obj.args[0].op == 'tuple' and len(obj.args[0].args) == 1 and (_isidx(first) or first.op == 'bv'):
        return obj.args[0].args[0]
    if o == 'map' and len(items) == 1 and obj.args[2] is TRUE and (scalar_idx(first) or first.op == 'sym'):
        n, body, c, bv = obj.args
        if is_int(first) and intval(first) < 0:
            first = add(n, first)
        return subst(body, {bv: first})
    if o == 'map' and len(items) > 1 and obj.args[2] is TRUE and scalar_idx(first):
        return index_items(index_items(obj, (first,)), items[1:])
    if o == 'concat' and len(items) == 1 and _intlike(first):
        k = intval(first)
        if k >= 0 and obj.args[0].op == 'tuple' and k < len(obj.args[0].args):
            return obj.args[0].args[k]
        if k < 0 and obj.args[-1].op == 'tuple' and -k <= len(obj.args[-1].args):
            return obj.args[-1].args[k]
    if o == 'stack' and len(items) >= 1:
        r = _stack_index(obj, items)
        if r is not None:
            return r
    if o == 'store':
        r = _store_select(obj, items)
        if r is not None:
            return r
    if o == 'storemap':
        r = _storemap_select(obj, items)
        if r is not None:
            return r
    if o == 'zeros' and obj.args[1].op == 'tuple' and len(items) == len(obj.args[1].args) and all(scalar_idx(x) for x in items):
        if obj.args[0] is not NONE:
            return obj.args[0]
    if o == 'index':
        r = _index_compose(obj, items)
        if r is not None:
            return r
    if o == 'reshape' and len(items) == 1 and first.op == 'num' and False:
        pass
    if o == 'range' and len(items) == 1 and scalar_idx(first):
        return add(obj.args[0], mul(obj.args[2], first))
    if o == 'range' and len(items) == 1 and first.op == 'slice' and first.args[0] is NONE and first.args[1] is NONE \
            and is_int(first.args[2]) and intval(first.args[2]) == -1 and is_int(obj.args[2]) and abs(intval(obj.args[2])) == 1:
        a, b, s = obj.args
        return mk('range', sub(b, s), sub(a, s), neg(s))
    if o == 'range' and len(items) == 1 and first.op == 'slice' and first.args[2] is NONE and obj.args[2] is ONE:
        # a run of the numbers, its ends at known places
        a, b, s = obj.args
        n = range_len(obj)
        i, j = [ZERO if first.args[0] is NONE else first.args[0], n if first.args[1] is NONE else first.args[1]]
        if is_num(i) and i.args[0] < 0:
            i = add(n, i)
        if is_num(j) and j.args[0] < 0:
            j = add(n, j)
        d = sub(j, n)
        if is_num(d) and d.args[0] > 0:
            j, d = n, ZERO
        if is_num(d) and (is_int(i) and intval(i) >= 0 and not is_num(n) or all(is_num(x) and x.args[0] >= 0 for x in (i, j))):
            return mk('range', add(a, i), add(a, j), s)
    if o in ('ufunc',) and all(scalar_idx(x) or x.op == 'slice' for x in items):
        # push basic indexing through elementwise functions of one array argument
        xs = [a for a in obj.args[1:] if isinstance(a, T)]
        ns = [a for a in xs if not is_scalar(a)]
        if len(ns) == 1 and rank_of(ns[0]):
            return mk_ufunc(obj.args[0], *[index_items(a, items) if a is ns[0] else a for a in xs])
    if o == 'poly' and all(scalar_idx(x) or x.op == 'slice' for x in items):
        r = rank_of(obj)
        if r and len(items) <= r:
            m = {}
            for mono, c in obj.args[0]:
                for a, e in mono:
                    if not is_scalar(a) and a not in m:
                        m[a] = _bindex(a, items, r)
            if m and None not in m.values():
                return subst(obj, m)
    if o == 'matmul' and len(items) <= 2 and all(scalar_idx(x) or x.op == 'slice' for x in items) and rank_of(obj) == len(items):
        parts = list(obj.args)
        ra, rb = rank_of(parts[0]), rank_of(parts[-1])
        it = list(items)
        if ra == 2:
            y = it.pop(0)
            if y is not FULL:
                parts[0] = index_items(parts[0], (y,))
        if rb == 2 and it:
            y = it.pop(0)
            if y is not FULL:
                parts[-1] = index_items(parts[-1], (FULL, y))
        if not it:
            return matmul(*parts)
    if o == 'matmul' and len(items) == 1 and scalar_idx(first) and rank_of(obj) == 2 and rank_of(obj.args[0]) == 2:
        return matmul(index_items(obj.args[0], items), *obj.args[1:])
    if o == 'spread' and len(items) == len(obj.args[1].args) and all(scalar_idx(x) for x in items):
        return index_items(obj.args[0], tuple(spread_items(obj, items)))
    if o == 'grid' and len(items) <= len(obj.args[1].args) and all(scalar_idx(x) or x is FULL for x in items):
        # the row or column numbers of a grid along some of its lines
        ds, ax = list(obj.args[1].args), intval(obj.args[0])
        its = list(items) + [FULL] * (len(ds) - len(items))
        keep = [k for k, x in enumerate(its) if x is FULL]
        if len(keep) == 1:
            if keep[0] == ax:
                return mk('range', ZERO, ds[ax], ONE)
            x = its[ax]
            return mk('zeros', add(ds[ax], x) if is_int(x) and intval(x) < 0 else x, ds[keep[0]], mk('str', 'dtype:int64'))
    if o == 'grid' and len(items) == len(obj.args[1].args) and all(scalar_idx(x) for x in items):
        return items[intval(obj.args[0])]
    if o == 'rowdot' and len(items) == 1 and scalar_idx(first):
        return matmul(index_items(obj.args[0], items), index_items(obj.args[1], items))
    if o == 'transpose' and len(obj.args) == 1 and rank_of(obj.args[0]) == 2 and all(scalar_idx(x) or x.op == 'slice' for x in items):
        if len(items) == 1 and scalar_idx(first):
            return index_items(obj.args[0], (FULL, first))
        if len(items) == 2 and any(scalar_idx(x) for x in items):
            return index_items(obj.args[0], (items[1], items[0]))
    return mk('index', obj, items)


def _bindex(a, items, r):
    """the part of an operand that a window on the broadcast result of rank r is computed from"""
    k = rank_of(a)
    if k == r:
        return index_items(a, items)
    if not k or k > r:
        return None
    its = items[r - k:]
    sh = shape(a)
    if sh.op == 'tuple' and ONE in sh.args:
        return None
    return index_items(a, its) if its else a


def fixslice(s):
    return norm_slice(*s.args)


def _arr_index(obj, items):
    shape, el = obj.args
    import itertools
    if any(x is ELL or x is NONE for x in items) or len(items) > len(shape):
        return None
    sel = []
    for k, n in enumerate(shape):
        it = items[k] if k < len(items) else FULL
        if _intlike(it):
            v = intval(it)
            if v < 0:
                v += n
            if not 0 <= v < n:
                return None
            sel.append(v)
        elif it.op == 'slice' and all(x is NONE or _intlike(x) for x in it.args):
            sel.append(list(range(*slice(*[None if x is NONE else intval(x) for x in it.args]).indices(n))))
        else:
            return None
    dims = [s for s in sel if isinstance(s, list)]
    nsh = tuple(len(s) for s in dims)
    out = []
    for combo in itertools.product(*[s if isinstance(s, list) else [s] for s in sel]):
        off = 0
        for c, n in zip(combo, shape):
            off = off * n + c
        out.append(el[off])
    if not nsh:
        return out[0]
    return arr(nsh, out)


def newaxis(a, k):
    r = rank_of(a)
    if k < 0:
        if r is None:
            return mk('call', 'numpy.expand_dims', (), (('a', a), ('axis', num(k))))
        k += r + 1
    return index_items(a, (FULL,) * k + (NONE,))


def _nonneg(t):
    if t.op == 'bv':
        return True
    if t.op == 'num':
        return t.args[0] >= 0
    return t.op == 'poly' and all(c > 0 and all(a.op == 'bv' for a, e in m) for m, c in t.args[0])


def cut_len(n, sl):
    """length of X[sl] when len(X) is n; None when not simple"""
    lo, hi, st = sl.args
    if st is not NONE:
        return None
    a = ZERO if lo is NONE else lo
    if not (is_int(a) and intval(a) >= 0):
        return None
    if hi is NONE:
        return sub(n, a)
    if is_int(hi) and intval(hi) < 0:
        return sub(add(n, hi), a)
    return None


def _first_only(x):
    while x.op == 'astype':
        x = x.args[0]
    return x.op == 'range' and x.args[0] is ZERO and x.args[1] is ONE


def _index_compose(obj, items):
    base, it0 = obj.args
    if NONE in it0 and ELL not in items and NONE not in items and all(x.op == 'slice' or x is NONE for x in it0):
        # all of a new axis
        its = tuple(FULL if k < len(it0) and it0[k] is NONE and _first_only(x) else x for k, x in enumerate(items))
        if its != tuple(items) and all(x.op == 'slice' for x in its):
            return index_items(obj, its)
    if len(items) > len(it0) and all(x.op == 'slice' for x in it0) and all(x is FULL for x in items[:len(it0)]) and ELL not in items and NONE not in items:
        # picked along further axes of a window
        return index_items(base, tuple(it0) + tuple(items[len(it0):]))
    fancy = [x for x in it0 if int_array(x)]
    if len(fancy) == 1 and all(x is fancy[0] or x.op == 'slice' for x in it0) and ELL not in items and NONE not in items and all(scalar_idx(x) or x.op == 'slice' for x in items):
        # positions picked by an integer array, then a window of the result
        res, it, ok, left = [], list(items), True, False
        for x in it0:
            if x is fancy[0]:
                k = rank_of(x)
                y, it = it[:k], it[k:]
                z = index_items(x, tuple(y)) if y else x
                left = not scalar_idx(z)
                res.append(z)
            else:
                y = it.pop(0) if it else FULL
                if x is FULL:
                    res.append(y)
                elif y is FULL:
                    res.append(x)
                else:
                    ok = False
        res += it
        if ok and (not left or not any(scalar_idx(x) for x in res) or it0[0] is fancy[0]):
            return index_items(base, tuple(res))
        return None
    if NONE in it0 and NONE not in items and ELL not in items and all(scalar_idx(x) or x.op == 'slice' for x in items):
        if any(not (x is FULL or x is NONE or x.op == 'slice' or scalar_idx(x)) for x in it0):
            return None
        res = []
        it = list(items)
        for x in it0:
            if scalar_idx(x):
                res.append(x)
                continue
            y = it.pop(0) if it else FULL
            if x is NONE:
                if y is FULL:
                    res.append(NONE)
                elif y is ZERO or y is MINUS1:
                    pass
                else:
                    return None
            elif x is FULL:
                res.append(y)
            elif y is FULL:
                res.append(x)
            else:
                return None
        return index_items(base, tuple(res) + tuple(it))
    if items and ELL not in it0 and ELL not in items and NONE not in it0 and NONE not in items and any(x.op == 'slice' and x is not FULL for x in it0) \
            and all(scalar_idx(x) or x.op == 'slice' for x in it0) and all(scalar_idx(x) or x is FULL for x in items):
        res, it, hit = [], list(items), False
        for x in it0:
            if x.op != 'slice' or not it:
                res.append(x)
                continue
            y = it.pop(0)
            if x is FULL:
                res.append(y)
            elif y is FULL:
                res.append(x)
            elif _nonneg(y) and x.args[2] is NONE and (x.args[0] is NONE or is_int(x.args[0]) and intval(x.args[0]) >= 0):
                res.append(add(y, x.args[0]) if x.args[0] is not NONE else y)
                hit = True
            else:
                return None
        if hit:
            return index_items(base, tuple(res) + tuple(it))
    # all earlier items are scalars or full slices
    if not all(scalar_idx(x) or x is FULL for x in it0):
        return None
    nfull = sum(1 for x in it0 if x is FULL)
    if ELL in items:
        return None
    if not all(scalar_idx(x) or x.op == 'slice' for x in items) and nfull:
        return None
    res = []
    it = list(items)
    for x in it0:
        if x is FULL and it:
            res.append(it.pop(0))
        else:
            res.append(x)
    res.extend(it)
    if not nfull and not all(scalar_idx(x) or x.op == 'slice' for x in items):
        if len(items) != 1:
            return None
        return mk('index', base, tuple(it0) + tuple(items)) if all(scalar_idx(x) for x in it0) and False else None
    return index_items(base, tuple(res))


def _provably_diff(a, b):
    """indices a, b are definitely different"""
    if a.op == 'num' and b.op == 'num':
        return a is not b and (a.args[0] >= 0) == (b.args[0] >= 0)
    if a.op == 'str' and b.op == 'str':
        return a is not b
    if scalar_idx(a) and scalar_idx(b) and ('poly' in (a.op, b.op)):
        d = sub(a, b)
        if d.op == 'num' and d.args[0] != 0:
            return True
    return False


def disjoint(i1, i2):
    for a, b in zip(i1, i2):
        if a is ELL or b is ELL:
            break
        if _provably_diff(a, b):
            return True
    if i1 and i2 and (ELL in i1 or ELL in i2):
        # compare from the right
        for a, b in zip(reversed(i1), reversed(i2)):
            if a is ELL or b is ELL:
                break
            if _provably_diff(a, b):
                return True
    return False


def covers(outer, inner):
    """every position of inner lies in outer (syntactic)"""
    if outer == inner:
        return True
    if len(outer) > len(inner):
        return False
    if ELL in outer or ELL in inner:
        return False
    for a, b in zip(outer, inner):
        if a is FULL or a is b:
            continue
        return False
    return True


def _store_select(obj, items):
    base, si, v = obj.args
    if ELL in si or ELL in items:
        if si == items:
            return v if not is_bcast(v) else None
        if disjoint(si, items):
            return index_items(base, items)
        return None
    if disjoint(si, items):
        return index_items(base, items)
    if covers(si, items) and all(scalar_idx(x) or x is FULL or x is y for x, y in zip(items, list(si) + [None] * len(items))):
        if si == items:
            return v if scalarish_target(items, v) else None
        # remaining indices apply to the stored value, where v is indexable
        if is_scalar(v):
            return v if all(scalar_idx(x) for x in items) else None
        rest = []
        for k, y in enumerate(items):
            if k < len(si):
                if si[k] is FULL:
                    rest.append(y)
            else:
                rest.append(y)
        rv = rank_of(v)
        return index_items(v, tuple(rest))
    return None


def is_bcast(v):
    return is_scalar(v)


def scalarish_target(items, v):
    return True if all(scalar_idx(x) for x in items) else not is_scalar(v)


def whole_extent(A, k, n):
    """does a loop over range(n) visit every index of axis k of A?  (unknown dimensions count as visited)"""
    if n is None:
        return False
    if A.op == 'zeros' and A.args[0].op == 'any':
        return True
    sh = shape(A)
    if sh.op == 'tuple':
        return k < len(sh.args) and sh.args[k] is n
    return True


def _storemap_select(obj, items):
    A, binders, sidx, val, cond = obj.args
    if cond is not TRUE:
        return None
    # every store index that is a bare bound variable maps to the requested item
    if len(items) < len(sidx):
        return None
    m = {}
    rest = []
    for k, s in enumerate(sidx):
        if s.op == 'bv':
            x = items[k]
            if not scalar_idx(x):
                return None
            n = dict(binders).get(s)
            if is_num(x) and n is not None:
                if x.args[0] < 0:
                    if not whole_extent(A, k, n):
                        return None
                    x = add(n, x)
                elif is_num(n) and x.args[0] >= n.args[0]:
                    return None
            elif x.op == 'sym' and x.args[0].startswith('#e') and not whole_extent(A, k, n):
                return None
            m[s] = x
        elif s is FULL:
            rest.append(items[k])
        elif s is items[k]:
            pass
        elif _provably_diff(s, items[k]):
            return index_items(A, items)
        else:
            return None
    if set(m) != set(b for b, n in binders):
        return None
    v = subst(val, m)
    rest += list(items[len(sidx):])
    if is_scalar(v) or not rest:
        return v
    return index_items(v, tuple(rest))


def _stack_index(obj, items):
    ax, parts = obj.args
    if parts.op != 'tuple':
        return None
    n = len(parts.args)
    if is_int(ax):
        a = intval(ax)
        if a < 0:
            r = rank_of(parts.args[0])
            if r is None:
                # index from the right with an ellipsis
                if len(items) == 2 and items[0] is ELL and a == -1 and _intlike(items[1]):
                    return parts.args[intval(items[1])] if -n <= intval(items[1]) < n else None
                return None
            a += r + 1
        if ELL in items:
            return None
        if len(items) > a and _intlike(items[a]):
            k = intval(items[a])
            if -n <= k < n:
                rest = items[:a] + items[a + 1:]
                return index_items(parts.args[k], rest)
    return None


def store(obj, i, v):
    items = idx_items(i)
    return store_items(obj, items, v)


def borrowed_type(t):
    """the number type of another array that the array t was made for"""
    while t.op == 'store':
        t = t.args[0]
    return t.args[2] if t.op == 'zeros' and len(t.args) == 3 and t.args[2].op != 'str' else None


def store_items(obj, items, v):
    items = tuple(fixslice(x) if x.op == 'slice' else x for x in items)
    items = norm_items(expand_ell(obj, items)) if obj.op not in ('dict',) else tuple(items)
    if obj.op == 'ite' and n_leaves(obj) <= 32:
        a, h, l = obj.args
        return ite(atom_cond(a), store_items(h, items, restrict_spine(v, a, True)), store_items(l, items, restrict_spine(v, a, False)))
    if any(x.op == 'ite' for x in items):
        return lift(lambda *a: mk('store', a[0], tuple(a[2:]), a[1]) if any(x.op == 'ite' for x in a[2:]) else store_items(a[0], a[2:], a[1]), (obj, v) + items)
    if obj.op == 'dict' and len(items) == 1:
        return dict_set(obj, items[0], v)
    if obj.op == 'tuple' and len(items) == 1 and _intlike(items[0]):
        k = intval(items[0])
        if -len(obj.args) <= k < len(obj.args):
            l = list(obj.args)
            l[k] = v
            return mk('tuple', *l)
    if obj.op == 'zeros' and obj.args[1].op == 'tuple' and all(_intlike(x) for x in obj.args[1].args) and obj.args[0].op == 'num':
        import functools, operator
        n = functools.reduce(operator.mul, [intval(x) for x in obj.args[1].args], 1)
        if n <= 64:
            obj = arr(tuple(intval(x) for x in obj.args[1].args), [obj.args[0]] * n)
    if obj.op == 'zeros' and _intlike(obj.args[1]) and obj.args[0].op == 'num' and intval(obj.args[1]) <= 64:
        obj = arr((intval(obj.args[1]),), [obj.args[0]] * intval(obj.args[1]))
    if obj.op == 'zeros' and obj.args[1].op == 'tuple' and len(items) == len(obj.args[1].args) and is_scalar(v):
        # the only place along an axis of one is all of it
        items = tuple(FULL if x is ZERO and n is ONE else x for x, n in zip(items, obj.args[1].args))
    if obj.op == 'zeros' and obj.args[1].op == 'tuple' and len(items) == len(obj.args[1].args) and all(x is FULL for x in items) and is_scalar(v):
        items = ()                          # every place along every axis
    d = borrowed_type(obj)
    if d is not None and v.op == 'poly' and sum(1 for x in syms_of(v)) > 1:
        v = mk('astype', v, d)              # real numbers put into an array of whole numbers, if the other array holds those
    if obj.op == 'arr':
        r = _arr_store(obj, items, v)
        if r is not None:
            return r
    if len(items) == 1 and items[0].op == 'call' and items[0].args[0] == 'numpy.where' and len(items[0].args[1]) == 1:
        items = (items[0].args[1][0],)
    # masked store of a scalar / identically masked value == where
    if len(items) == 1 and (is_cond(items[0])):
        m = items[0]
        vv = None
        if is_scalar(v) or v.op in ('float',):
            vv = v
        elif v.op == 'index' and v.args[1] == (m,):
            vv = v.args[0]
        if vv is not None:
            if obj.op == 'where' and is_int(vv) and is_cond(obj.args[0]):
                # every entry overwritten by one of two whole numbers
                c, a, b = obj.args
                old = b if c is b_not(m) and is_int(a) else a if c is m and is_int(b) else None
                if old is not None:
                    return where(m, vv, a if old is b else b)
            if is_int(vv) and filler(obj) is not None and least_rank(m) == rank_of(obj):
                return where(m, vv, filler(obj))
            return where(m, vv, obj)
    if not items and obj.op == 'zeros' and len(obj.args) == 3 and is_int(v) and 0 <= intval(v) <= 255:
        return add(mk('zeros', ZERO, obj.args[1], obj.args[2]), v)
    if not items and obj.op == 'zeros' and len(obj.args) == 2 and v.op not in ('str', 'none', 'bool', 'tuple', 'map', 'arr', 'top'):
        return add(mk('zeros', ZERO, obj.args[1]), v)        # a[:] = v fills the whole array
    # v identical to current content: no-op
    if obj.op == 'store' and obj.args[1] == items:
        return store_items(obj.args[0], items, v)
    if v is index_items(obj, items) and v.op == 'index':
        return obj
    if obj.op == 'store' and covers(items, obj.args[1]) and ELL not in items:
        return store_items(obj.args[0], items, v)
    if obj.op == 'store' and disjoint(obj.args[1], items) and _ikey(items) < _ikey(obj.args[1]):
        return mk('store', store_items(obj.args[0], items, v), obj.args[1], obj.args[2])
    r = mk('store', obj, items, v)
    return _complete_stack(r)


def _complete_stack(r):
    """zeros((..,n)) with all n last-axis planes stored == stack of the planes"""
    chain = []
    t = r
    while t.op == 'store':
        chain.append((t.args[1], t.args[2]))
        t = t.args[0]
    if t.op != 'zeros' or t.args[1].op != 'tuple' or len(t.args[1].args) < 2:
        return r
    dims = t.args[1].args
    rk = len(dims)
    for ax in range(rk):
        if not _intlike(dims[ax]):
            continue
        n = intval(dims[ax])
        if n != len(chain) or n > 16:
            continue
        vals = {}
        for items, v in chain:
            if ELL in items or len(items) <= ax:
                break
            if not _intlike(items[ax]) or any(x is not FULL for k, x in enumerate(items) if k != ax):
                break
            vals[intval(items[ax])] = v
        if set(vals) == set(range(n)) and not any(is_scalar(v) for v in vals.values()):
            return mk('stack', num(ax - rk if ax == rk - 1 else ax), mk('tuple', *[vals[k] for k in range(n)]))
    return r


def _ikey(items):
    # structural order for constants, falls back on ids
    return tuple((0, str(x.args[0])) if x.op == 'num' else (1, str(x.id)) for x in items)


def _arr_store(obj, items, v):
    shape, el = obj.args
    import itertools
    if any(x is ELL or x is NONE for x in items) or len(items) > len(shape):
        return None
    sel = []
    nd = []
    for k, n in enumerate(shape):
        it = items[k] if k < len(items) else FULL
        if _intlike(it):
            x = intval(it)
            if x < 0:
                x += n
            if not 0 <= x < n:
                return None
            sel.append([x])
        elif it.op == 'slice' and all(x is NONE or _intlike(x) for x in it.args):
            s = list(range(*slice(*[None if x is NONE else intval(x) for x in it.args]).indices(n)))
            sel.append(s)
            nd.append(len(s))
        else:
            return None
    el = list(el)
    if nd:
        if v.op == 'tuple' and len(nd) == 1 and len(v.args) == nd[0]:
            v = arr((nd[0],), v.args)
        if v.op == 'arr':
            if v.args[0] != tuple(nd):
                return None
        elif not is_scalar(v):
            if len(nd) == 1:
                v = arr((nd[0],), [index_items(v, (num(k),)) for k in range(nd[0])])
            else:
                return None
    for j, combo in enumerate(itertools.product(*sel)):
        off = 0
        for c, n in zip(combo, shape):
            off = off * n + c
        el[off] = v.args[1][j] if (nd and v.op == 'arr') else v
    return arr(shape, el)


# ---------------------------------------------------------------- dicts
# ('dict', ((key, val), ...)) with constant keys sorted; generic keys through 'store'

def mkdict(pairs):
    pairs = list(pairs)
    if any(not is_const(k) for k, _ in pairs):
        n = [is_const(k) for k, _ in pairs].index(False)
        r = mkdict(pairs[:n])
        for k, v in pairs[n:]:
            r = mk('store', r, (k,), v)
        return r
    d = {}
    for k, v in pairs:
        d[k] = v
    return mk('dict', tuple(sorted(d.items(), key=lambda kv: repr(kv[0].args))))


def dict_get(d, k, default):
    if d.op == 'dict':
        keys = dict(d.args[0])
        if is_const(k):
            for kk, v in d.args[0]:
                if c_eq(kk, k) is TRUE:
                    return v
            return default
        r = default
        for kk, v in reversed(d.args[0]):
            r = ite(c_eq(k, kk), v, r)
        return r
    ch = dict_chain(d)
    if ch is not None:
        r = default
        for kk, v in reversed(ch):
            r = ite(c_eq(k, kk), v, r)
        return r
    return mk('index', d, (k,))


def dict_set(d, k, v):
    if d.op == 'dict' and all(is_const(kk) for kk, _ in d.args[0]) and is_const(k):
        pairs = [(kk, vv) for kk, vv in d.args[0] if c_eq(kk, k) is not TRUE]
        return mkdict(pairs + [(k, v)])
    return mk('store', d, (k,), v)


# ---------------------------------------------------------------- shapes

def _leaf0(t):
    best = None
    st = [t]
    while st:
        x = st.pop()
        if x.op == 'ite':
            st.append(x.args[2])
            st.append(x.args[1])
        elif best is None or (x.op == 'tuple' and best.op != 'tuple'):
            best = x
    return best


def shape(t):
    return lift(_shape, (t,))


def _bshape(ss):
    """broadcast shape of operands whose shapes are known tuples"""
    if not ss or any(s.op != 'tuple' for s in ss):
        return None
    n = max(len(s.args) for s in ss)
    if n == 0:
        return None
    out = []
    for k in range(1, n + 1):
        cs = [(len(s.args), s.args[-k]) for s in ss if len(s.args) >= k and s.args[-k] is not ONE]
        full = set(d for r, d in cs if r == n) or set(d for r, d in cs)
        if len(full) > 1:
            return None
        out.insert(0, full.pop() if full else ONE)
    return mk('tuple', *out)


def _shape(t):
    o = t.op
    if o == 'sym' and 'dims' in SYMINFO.get(t.args[0], {}):
        return mk('tuple', *SYMINFO[t.args[0]]['dims'])
    if o == 'arr':
        return mk('tuple', *[num(n) for n in t.args[0]])
    if o == 'zeros':
        s = t.args[1]
        if s.op == 'tuple':
            return s
        if s.op == 'shape' or s.op == 'sym':
            return s
        if is_scalar(s) or s.op in ('num', 'index', 'poly', 'call', 'len'):
            return mk('tuple', s)
        return s
    if o in ('store', 'storemap', 'astype'):
        return shape(t.args[0])
    if o in ('grid', 'spread'):
        return t.args[1]
    if o == 'stack' and t.args[1].op == 'tuple' and t.args[1].args:
        e = shape(t.args[1].args[0])
        if e.op == 'ite':                     # the parts of a stack have one shape: take it from any leaf
            e = _leaf0(e)
        if e.op == 'tuple' and is_int(t.args[0]):
            l = list(e.args)
            k = intval(t.args[0])
            if k < 0:
                k += len(l) + 1
            if 0 <= k <= len(l):
                l.insert(k, num(len(t.args[1].args)))
                return mk('tuple', *l)
    if o == 'range':
        return mk('tuple', range_len(t))
    if o == 'where':
        for x in t.args[1:]:
            if not is_scalar(x):
                return shape(x)
    if o == 'ufunc':
        xs = [a for a in t.args[1:] if isinstance(a, T) and not is_scalar(a)]
        if len(xs) >= 1:
            ss = set(shape(x) for x in xs)
            if len(ss) == 1:
                return ss.pop()
    if o == 'poly':
        ss = set()
        for m, c in t.args[0]:
            for a, e in m:
                if not is_scalar(a):
                    ss.add(shape(a))
        if len(ss) == 1:
            return ss.pop()
        r = _bshape(ss)
        if r is not None:
            return r
        # scalars unknown: if exactly one atom has a known (non-opaque) shape use it only when
        # every other atom is scalar -- otherwise leave opaque
    if o == 'pos' or o == 'bdd':
        pass
    if o == 'minv':
        return shape(t.args[0])
    if o == 'transpose' and len(t.args) == 1:
        s = shape(t.args[0])
        if s.op == 'tuple':
            return mk('tuple', *reversed(s.args))
    if o == 'matmul':
        a, b = shape(t.args[0]), shape(t.args[-1])
        if a.op == b.op == 'tuple':
            return mk('tuple', *(a.args[:-1] + b.args[:-2] + b.args[-1:])) if len(b.args) > 1 else mk('tuple', *a.args[:-1])
    if o == 'rowdot':
        s = shape(t.args[0])
        if s.op == 'tuple':
            return mk('tuple', *s.args[:-1])
    if o == 'call' and t.args[0] in ('numpy.cov', 'numpy.ma.cov'):
        d = dict(t.args[2])
        x = t.args[1][0] if t.args[1] else d.get('m')
        s = shape(x) if x is not None else None
        if s is not None and s.op == 'tuple' and len(s.args) == 2 and set(d) <= {'m'}:
            return mk('tuple', s.args[0], s.args[0])
    if o == 'call' and t.args[0] in ('numpy.eye', 'numpy.identity') and len(t.args[1]) == 1 and not t.args[2]:
        return mk('tuple', t.args[1][0], t.args[1][0])
    if o == 'call' and t.args[0] == 'numpy.ma.masked_array' and t.args[1]:
        return shape(t.args[1][0])
    if o == 'call' and t.args[0] in REDUCE and 'axis' in dict(t.args[2]) and 'a' in dict(t.args[2]):
        d = dict(t.args[2])
        s = shape(d['a'])
        if s.op == 'tuple' and is_int(d['axis']) and set(d) == {'a', 'axis'} and -len(s.args) <= intval(d['axis']) < len(s.args):
            l = list(s.args)
            del l[intval(d['axis'])]
            return mk('tuple', *l)
    if o == 'reshape':
        s = t.args[1]
        if s.op == 'tuple' and not any(is_num(x) and x.args[0] < 0 for x in s.args):
            return s
        if s.op == 'tuple':
            return mk('tuple', *[mk('index', mk('shape', t), (num(k),)) if is_num(x) and x.args[0] < 0 else x for k, x in enumerate(s.args)])
        if s.op == 'shape':
            return s
    if o == 'map' and t.args[2] is TRUE:
        return mk('tuple', t.args[0]) if is_scalar(t.args[1]) else mk('shape', t)
    if o == 'tuple':
        return mk('shape', t)
    if o == 'call' and t.args[0] in SHAPE_KEEP_CALLS:
        d = dict(t.args[2])
        x = t.args[1][0] if t.args[1] else d.get('a', d.get('x', d.get('m')))
        if isinstance(x, T):
            return shape(x)
    if o == 'call' and t.args[0] == 'numpy.concatenate' and t.args[1] and t.args[1][0].op == 'tuple' and t.args[1][0].args:
        ax = dict(t.args[2]).get('axis', ZERO)
        es = [shape(x) for x in t.args[1][0].args]
        es = [_leaf0(e) if e.op == 'ite' else e for e in es]
        if is_int(ax) and all(e.op == 'tuple' and len(e.args) > abs(intval(ax)) for e in es) and len(set(len(e.args) for e in es)) == 1:
            k = intval(ax) % len(es[0].args)
            n = ZERO
            for e in es:
                n = add(n, e.args[k])
            return mk('tuple', *[n if j == k else x for j, x in enumerate(es[0].args)])
    if o == 'call' and t.args[0] in ('numpy.argsort', 'numpy.sort') and set(dict(t.args[2])) <= {'a', 'axis'} and not t.args[1] and 'a' in dict(t.args[2]) \
            and dict(t.args[2]).get('axis') is not NONE:
        return shape(dict(t.args[2])['a'])
    if o == 'index':
        # basic indexing with full slices and scalars of a term of known rank
        base, items = t.args
        fancy = [x for x in items if int_array(x)]
        if len(fancy) == 1 and all(x is fancy[0] or x is FULL for x in items) and shape(base).op == 'tuple' and shape(fancy[0]).op == 'tuple':
            sh = list(shape(base).args)
            k = list(items).index(fancy[0])
            if k < len(sh):
                return mk('tuple', *(sh[:k] + list(shape(fancy[0]).args) + sh[k + 1:]))
        if any(x.op == 'slice' and x is not FULL for x in items) and all(scalar_idx(x) or x.op == 'slice' for x in items):
            sh = shape(base)
            r = rank_of(base) if sh.op != 'tuple' else len(sh.args)
            if r is not None and r >= len(items):
                out = []
                for k in range(r):
                    it = items[k] if k < len(items) else FULL
                    if it is FULL:
                        out.append(index(sh, num(k)))
                    elif it.op == 'slice':
                        n = cut_len(index(sh, num(k)), it)
                        if n is None:
                            out = None
                            break
                        out.append(n)
                if out:
                    return mk('tuple', *out)
        if all(scalar_idx(x) or x is FULL or x is NONE for x in items) and NONE in items:
            sh = shape(base)
            r = rank_of(base) if sh.op != 'tuple' else len(sh.args)
            if r is not None:
                out = []
                k = 0
                for it in tuple(items) + (FULL,) * (r - sum(1 for x in items if x is not NONE)):
                    if it is NONE:
                        out.append(ONE)
                        continue
                    if it is FULL:
                        out.append(index(sh, num(k)))
                    k += 1
                return mk('tuple', *out)
        if all(scalar_idx(x) or x is FULL for x in items):
            sh = shape(base)
            r = rank_of(base) if sh.op != 'tuple' else len(sh.args)
            if r is not None:
                out = []
                for k in range(r):
                    it = items[k] if k < len(items) else FULL
                    if it is FULL:
                        out.append(index(sh, num(k)))
                return mk('tuple', *out)
    r = rank_of(t)
    if r is not None and r > 0 and o == 'sym':
        return mk('tuple', *[mk('index', mk('shape', t), (num(k),)) for k in range(r)])
    return mk('shape', t)


def length(t):
    return lift(_length, (t,))


def _length(t):
    o = t.op
    if o == 'tuple':
        return num(len(t.args))
    if o == 'str':
        return num(len(t.args[0]))
    if o == 'dict':
        return num(len(t.args[0]))
    if o == 'map' and t.args[2] is TRUE:
        return t.args[0]
    if o == 'map' or o == 'mapcat':
        return mk('call', 'len', (t,), ())
    if o == 'range':
        return range_len(t)
    if o == 'concat':
        r = ZERO
        for p in t.args:
            r = add(r, length(p))
        return r
    if o == 'repeat':
        return mul(length(t.args[0]), t.args[1])
    if o == 'store' and rank_of(t) is None and t.args[0].op in ('map', 'tuple', 'sym', 'concat', 'repeat'):
        return length(t.args[0])
    if o == 'call' and t.args[0] == 'sorted':
        return length(t.args[1][0])
    if o == 'shape' and rank_of(t.args[0]) is not None:
        return num(rank_of(t.args[0]))
    if o == 'index' and rank_of(t.args[0]) is None and len(t.args[1]) == 1 and t.args[1][0].op == 'slice':
        n = cut_len(length(t.args[0]), t.args[1][0])
        if n is not None:
            return n
    s = shape(t)
    return index(s, ZERO)


def range_len(t):
    lo, hi, st = t.args
    if st is ONE or (is_num(st) and st.args[0] == 1):
        if is_num(lo) and is_num(hi):
            return num(max(0, intval(sub(hi, lo))))
        return sub(hi, lo)
    if is_int(lo) and is_int(hi) and is_int(st):
        return num(len(range(intval(lo), intval(hi), intval(st))))
    if is_num(lo) and is_num(hi) and is_num(st) and st.args[0] != 0:
        return num(max(0, -int((lo.args[0] - hi.args[0]) // st.args[0])))
    return mk('call', 'rangelen', (lo, hi, st), ())


def size(t):
    return lift(_size, (t,))


def _size(t):
    s = shape(t)
    if s.op == 'tuple':
        r = ONE
        for x in s.args:
            r = mul(r, x)
        return r
    return mk('size', t)


MINUS1 = num(-1)


def reshape(a, s):
    return lift(_reshape, (a, s))


def total_size(t):
    """number of elements as a polynomial, None when unknown"""
    if t.op in ('reshape', 'transpose', 'astype'):
        return total_size(t.args[0])
    if t.op in ('poly', 'ufunc'):
        ats = [x for x in (t.args[1:] if t.op == 'ufunc' else [x for m, c in t.args[0] for x, e in m]) if isinstance(x, T) and not is_scalar(x)]
        r = set(total_size(x) for x in ats)
        return r.pop() if len(r) == 1 else None
    sh = shape(t)
    if sh.op == 'tuple':
        ds = sh.args
    else:
        r = rank_of(t)
        if not r or t.op != 'sym':
            return None
        ds = [index(sh, num(k)) for k in range(r)]
    n = ONE
    for d in ds:
        n = mul(n, d)
    return n


def atoms_in(t):
    return set(x for mo in _t.to_poly(t) for x, e in mo) if t.op == 'poly' else set() if is_num(t) else {t}


def misfit(a, items):
    """a reshape whose new sizes cannot multiply to the old ones, both being known in terms of the shapes of inputs"""
    if any(is_num(x) and x.args[0] < 0 for x in items) or not items:
        return False
    if any(contains(x, lambda z: z.op in ('unbound', 'index_error')) for x in items):
        return True
    n = total_size(a)
    if n is None:
        return False
    m = ONE
    for d in items:
        if not is_scalar(d):
            return False
        m = mul(m, d)
    one = sym('#shape', rank=4)
    ren = lambda t: _t.subst(t, dict((x, mk('index', mk('shape', one), x.args[1])) for x in atoms_in(t) if ok(x)))
    ok = lambda x: x.op == 'index' and x.args[0].op == 'shape' and x.args[0].args[0].op == 'sym'
    m, n = ren(m), ren(n)          # input arrays that go together are taken to be of one shape
    if m is n:
        return False
    am, an = atoms_in(m), atoms_in(n)
    return bool(am) and am <= an and all(ok(x) for x in an)


def _reshape(a, s):
    its = s.args if s.op == 'tuple' else (s,) if s.op != 'num' and is_scalar(s) else ()
    if its and misfit(a, its):
        return mk('call', 'numpy.reshape(wrong size)', (a, mk('tuple', *its)), ())
    if s.op == 'tuple':
        items = s.args
    elif s.op in ('num',) or is_scalar(s) or (s.op == 'poly'):
        items = (s,)
    elif s.op == 'shape' or s.op == 'sym' or s.op == 'concat':
        items = None
    else:
        items = (s,) if s.op in ('size', 'len', 'index', 'call') else None
    if a.op == 'poly' and len(a.args[0]) == 1 and a.args[0][0][0] != () and False:
        pass
    # elementwise numeric content commutes with reshaping: pull constant factors/offsets out
    if items is not None and len(items) == 1:
        items = (MINUS1,)
    # elementwise maps commute with reshape
    if items is None and shape(a) is s:
        return a
    if a.op == 'poly':
        ats = set()
        for m, c in a.args[0]:
            for x, e in m:
                if not is_scalar(x):
                    ats.add(x)
        if len(ats) == 1 or (ats and len(set(shape(x) for x in ats)) == 1):
            tgt = s if items is None else mk('tuple', *items)
            return subst_top_atoms(a, dict((x, reshape(x, tgt)) for x in ats))
        if len(ats) > 1:
            # flattened grids and flat zeros of one length
            flat = [x for x in ats if x.op == 'reshape' and x.args[1] is mk('tuple', MINUS1)]
            zs = [x for x in ats if x.op == 'zeros' and x.args[0] is ZERO]
            if flat and len(flat) + len(zs) == len(ats) and (not zs or all(total_size(z) is total_size(flat[0]) or total_size(z) is total_size(x) for z in zs for x in flat)):
                tgt = s if items is None else mk('tuple', *items)
                m = dict((x, reshape(x, tgt)) for x in flat)
                for z in zs:
                    m[z] = ZERO
                return subst_top_atoms(a, m)
    if a.op == 'ufunc' and len(a.args) == 2:
        return mk_ufunc(a.args[0], reshape(a.args[1], s if items is None else mk('tuple', *items)))
    if a.op == 'astype':
        return mk('astype', reshape(a.args[0], s if items is None else mk('tuple', *items)), a.args[1])
    if a.op == 'where':
        ats = [x for x in a.args[1:] if not is_scalar(x)]
        cs = a.args[0]
        pass
    if a.op == 'zeros':
        if items is not None and len(items) == 1:
            return mk('zeros', a.args[0], size(a))
        if items is not None and not any(is_num(x) and x.args[0] < 0 for x in items):
            return mk('zeros', a.args[0], mk('tuple', *items))
    if a.op == 'reshape':
        # only the innermost data and the outermost shape matter
        src = a.args[0]
        ssrc = shape(src)
        tgt = s if items is None else mk('tuple', *items)
        if tgt is ssrc:
            return src
        return reshape(src, tgt)
    if items is not None:
        tgt = mk('tuple', *items)
        ss = shape(a)
        if ss is tgt:
            return a
        if ss.op == 'tuple' and len(items) == 1 and len(ss.args) == 1:
            return a
        if a.op == 'arr':
            r = _arr_reshape(a, items)
            if r is not None:
                return r
        # one dimension of length one more or less
        if ss.op == 'tuple' or rank_of(a):
            sa_ = ss.args if ss.op == 'tuple' else tuple(index(ss, num(k)) for k in range(rank_of(a)))
            fits = lambda p, q: len(p) == len(q) and sum(1 for x in p if is_num(x) and x.args[0] < 0) <= 1 and all(x is y or (is_num(x) and x.args[0] < 0) for x, y in zip(p, q))
            if len(items) == len(sa_) + 1:
                for k in reversed(range(len(items))):
                    if items[k] is ONE and fits(items[:k] + items[k + 1:], sa_):
                        return newaxis(a, k)
            if len(items) + 1 == len(sa_):
                for k in reversed(range(len(sa_))):
                    if sa_[k] is ONE and fits(items, sa_[:k] + sa_[k + 1:]):
                        return index_items(a, (FULL,) * k + (ZERO,))
        # all but the first dimension determine the result
        if not any(is_num(x) and x.args[0] < 0 for x in items[1:]):
            if ss.op == 'tuple' and len(ss.args) == len(items) and ss.args[1:] == items[1:]:
                return a
            if all(x.op in ('shape',) for x in ()):
                pass
            # recognise (shape(a)[0], ..., shape(a)[-1])
            if all(x.op == 'index' and x.args[0].op == 'shape' and x.args[0].args[0] is a and x.args[1] == (num(k),)
                   for k, x in enumerate(items)) and rank_of(a) == len(items):
                return a
            items = (MINUS1,) + tuple(items[1:])
        return mk('reshape', a, mk('tuple', *items))
    return mk('reshape', a, s)


def subst_top_atoms(p, m):
    r = ZERO
    for mono, c in p.args[0]:
        x = num(c)
        for a, e in mono:
            b = m.get(a, a)
            x = mul(x, power(b, num(e)) if e != 1 else b)
        r = add(r, x)
    return r


def _arr_reshape(a, items):
    sh, el = a.args
    n = len(el)
    if not all(_intlike(x) for x in items):
        return None
    d = [intval(x) for x in items]
    if d.count(-1) == 1:
        k = 1
        for x in d:
            if x != -1:
                k *= x
        d[d.index(-1)] = n // k if k else 0
    p = 1
    for x in d:
        p *= x
    if p != n:
        return None
    return arr(tuple(d), el)


def ravel(a):
    return reshape(a, MINUS1)


def transpose(a, axes=None):
    return lift(lambda x: _transpose(x, axes), (a,))


def symmetric(a):
    if a.op == 'sym':
        return bool(SYMINFO.get(a.args[0], {}).get('symmetric'))
    if a.op == 'minv':
        return symmetric(a.args[0])
    if a.op == 'call':
        if a.args[0] in ('numpy.cov', 'numpy.ma.cov'):
            return True
        if a.args[0] == 'scipy.linalg.fractional_matrix_power' and a.args[1]:
            return symmetric(a.args[1][0])
    return False


def _transpose(a, axes):
    if axes is not None and axes.op == 'tuple' and all(_intlike(x) for x in axes.args):
        ax = [intval(x) for x in axes.args]
        ax = [x + len(ax) if x < 0 else x for x in ax]
        if ax == list(range(len(ax))):
            return a
        if a.op == 'transpose' and len(a.args) == 2:
            prev = [intval(x) for x in a.args[1].args]
            if len(prev) == len(ax):
                return _transpose(a.args[0], mk('tuple', *[num(prev[k]) for k in ax]))
        if len(ax) == 2 and ax == [1, 0]:
            axes = None
        else:
            return mk('transpose', a, mk('tuple', *[num(x) for x in ax]))
    elif axes is not None:
        return mk('transpose', a, axes)
    if a.op == 'arr':
        sh, el = a.args
        if len(sh) == 1:
            return a
        if len(sh) == 2:
            r, c = sh
            return arr((c, r), [el[i * c + j] for j in range(c) for i in range(r)])
    if a.op == 'transpose' and len(a.args) == 1:
        return a.args[0]
    if a.op == 'tuple' and a.args and all(rank_of(x) == 1 for x in a.args):
        return mk('stack', num(-1), a)
    if a.op == 'stack' and a.args[1].op == 'tuple' and is_int(a.args[0]) and intval(a.args[0]) in (0, -1) and all(rank_of(x) == 1 for x in a.args[1].args):
        return mk('stack', ZERO if intval(a.args[0]) else num(-1), a.args[1])
    if is_scalar(a) or symmetric(a):
        return a
    if axes is None and rank_of(a) == 1:
        return a
    if a.op == 'minv':
        return minv(transpose(a.args[0]))
    if axes is None and _eye(a):
        return a
    if a.op == 'matmul':
        return matmul(*[transpose(x) for x in reversed(a.args)])
    if a.op == 'poly' and all((x.op == 'transpose' or is_scalar(x) or rank_of(x) == 2) for m, c in a.args[0] for x, e in m):
        m = dict((x, transpose(x)) for mono, c in a.args[0] for x, e in mono if not is_scalar(x))
        return subst_top_atoms(a, m)
    if a.op == 'poly':
        # numeric scale
        if len(a.args[0]) == 1:
            mono, c = a.args[0][0]
            if c != 1:
                return mul(num(c), transpose(from_poly({mono: Fraction(1)})))
    return mk('transpose', a)


def matmul(*ms):
    r = ms[0]
    for m in ms[1:]:
        r = lift(_matmul, (r, m))
    return r


def _as2(t):
    return t


def _content(t):
    if t.op == 'poly':
        p = dict(t.args[0])
        lead = _t._lead(p)
        k = p[lead]
        if k != 1:
            return k, from_poly(dict((m, v / k) for m, v in p.items()))
    return Fraction(1), t


def tup2arr(t):
    """a nested tuple of terms seen as an array, when rectangular"""
    if t.op != 'tuple':
        return t
    if not t.args:
        return arr((0,), [])
    rows = [tup2arr(x) for x in t.args]
    if all(r.op == 'arr' and r.args[0] == rows[0].args[0] for r in rows):
        return arr((len(rows),) + rows[0].args[0], [e for r in rows for e in r.args[1]])
    if any(r.op == 'arr' for r in rows):
        return t
    if all(is_scalar(r) or rank_of(r) == 0 for r in rows):
        return arr((len(rows),), rows)
    return mk('tuple', *rows)


def _matmul(a, b):
    a, b = tup2arr(a), tup2arr(b)
    if a.op == 'arr' and b.op == 'arr':
        r = _arr_matmul(a, b)
        if r is not None:
            return r
    if is_scalar(a) or is_scalar(b):
        return mul(a, b)
    r = _rows_matmul(a, b)
    if r is not None:
        return r
    ca, a1 = _content(a)
    cb, b1 = _content(b)
    k = ca * cb
    la = a1.args if a1.op == 'matmul' else (a1,)
    lb = b1.args if b1.op == 'matmul' else (b1,)
    # combine adjacent known arrays
    la, lb = list(la), list(lb)
    if len(la) > 1 and rank_of(la[-1]) == 1 and rank_of(la[0]) == 2:
        la = [transpose(x) for x in reversed(la)]
    if la[-1].op == 'arr' and lb[0].op == 'arr':
        r = _arr_matmul(la[-1], lb[0])
        if r is not None:
            la[-1:] = [r]
            lb = lb[1:]
    parts = la + lb
    # linear in the outer factors
    for side in (0, -1):
        x = parts[side]
        if x.op == 'poly' and 1 < len(x.args[0]) <= 6:
            ms = [(c, from_poly({m: Fraction(1)})) for m, c in x.args[0]]
            rk = [rank_of(m) for c, m in ms]
            if None in rk or max(rk) not in (1, 2):
                continue
            if 0 in rk or (side == -1 and len(set(rk)) > 1):
                continue
            tot = ZERO
            for c, m in ms:
                y = matmul(m, *parts[1:]) if side == 0 else matmul(*(parts[:-1] + [m]))
                tot = add(tot, mul(num(c), y))
            return mul(num(k), tot) if k != 1 else tot
    r = _chain(parts)
    return mul(num(k), r) if k != 1 else r


def _eye(t):
    return t.op == 'call' and t.args[0] in ('numpy.eye', 'numpy.identity') and len(t.args[1]) == 1 and not t.args[2]


def _drop_eye(parts):
    for k, x in enumerate(parts):
        if _eye(x) and len(parts) > 1:
            n = x.args[1][0]
            for j, side in ((k - 1, -1), (k + 1, 0)):
                if 0 <= j < len(parts):
                    s = shape(parts[j])
                    if s.op == 'tuple' and s.args and s.args[side] is n:
                        return _drop_eye(parts[:k] + parts[k + 1:])
    return parts


def _chain(parts):
    parts = _drop_eye(parts)
    if len(parts) == 1:
        return parts[0]
    a, b = rank_of(parts[0]), rank_of(parts[-1])
    if a == 1 and b == 2:
        rev = [transpose(x) for x in reversed(parts)]
        if not any(x.op in ('poly', 'matmul') for x in rev):
            return mk('matmul', *rev)
    if a == 1 and b == 1:
        rev = [transpose(x) for x in reversed(parts)]
        p, q = tuple(parts), tuple(rev)
        if tuple(x.id for x in q) < tuple(x.id for x in p) and not any(x.op in ('poly', 'matmul') for x in rev):
            p = q
        return mk('inner', *p)
    return mk('matmul', *parts)


def rowsum(x):
    """sum over the last axis of a matrix expression"""
    tot = ZERO
    for m, c in to_poly(x).items():
        sc, fs = num(c), []
        for a, e in m:
            if is_scalar(a):
                sc = mul(sc, power(a, num(e)) if e != 1 else a)
            elif e in (1, 2):
                fs += [a] * int(e)
            else:
                return None
        rk = [rank_of(a) for a in fs]
        if not rk or any(r not in (1, 2) for r in rk):
            return None
        if sorted(rk) == [1, 2]:
            v = fs[rk.index(1)]
            mtx = fs[rk.index(2)]
            y = matmul(mtx, v)
        elif rk == [2, 2]:
            y = mk('rowdot', *sorted(fs, key=lambda t: t.id))
        elif rk == [1, 1]:
            y = matmul(*fs)
        elif rk == [2]:
            y = mk('call', 'numpy.sum', (), (('a', fs[0]), ('axis', ONE)))
        else:
            return None
        tot = add(tot, mul(sc, y))
    return tot


def _rows_matmul(a, b):
    """known matrix times a matrix given by its rows (or columns times a known matrix)"""
    if a.op == 'arr' and len(a.args[0]) in (1, 2) and b.op == 'stack' and b.args[1].op == 'tuple':
        rows = b.args[1].args
        n = len(a.args[0]) == 2 and a.args[0][0] or 1
        m = a.args[0][-1]
        if b.args[0] is ZERO and m == len(rows) and any(rank_of(x) == 1 for x in rows):
            out = []
            for i in range(n):
                s = ZERO
                for k in range(m):
                    s = add(s, mul(a.args[1][i * m + k], rows[k]))
                out.append(s)
            return mk('stack', ZERO, mk('tuple', *out)) if len(a.args[0]) == 2 else out[0]
    if b.op == 'arr' and len(b.args[0]) in (1, 2) and a.op == 'stack' and a.args[1].op == 'tuple' and is_int(a.args[0]) and intval(a.args[0]) in (1, -1):
        cols = a.args[1].args
        m = b.args[0][0]
        n = len(b.args[0]) == 2 and b.args[0][1] or 1
        if m == len(cols) and all(rank_of(x) == 1 for x in cols):
            out = []
            for j in range(n):
                s = ZERO
                for k in range(m):
                    s = add(s, mul(b.args[1][k * n + j], cols[k]))
                out.append(s)
            return mk('stack', a.args[0], mk('tuple', *out)) if len(b.args[0]) == 2 else out[0]
    return None


def _arr_matmul(a, b):
    (sa, ea), (sb, eb) = a.args, b.args
    if len(sa) == 2 and len(sb) == 2 and sa[1] == sb[0]:
        n, m, p = sa[0], sa[1], sb[1]
        out = []
        for i in range(n):
            for j in range(p):
                s = ZERO
                for k in range(m):
                    s = add(s, mul(ea[i * m + k], eb[k * p + j]))
                out.append(s)
        return arr((n, p), out)
    if len(sa) == 2 and len(sb) == 1 and sa[1] == sb[0]:
        n, m = sa
        out = []
        for i in range(n):
            s = ZERO
            for k in range(m):
                s = add(s, mul(ea[i * m + k], eb[k]))
            out.append(s)
        return arr((n,), out)
    if len(sa) == 1 and len(sb) == 2 and sa[0] == sb[0]:
        m, p = sb
        out = []
        for j in range(p):
            s = ZERO
            for k in range(m):
                s = add(s, mul(ea[k], eb[k * p + j]))
            out.append(s)
        return arr((p,), out)
    if len(sa) == 1 and len(sb) == 1 and sa == sb:
        s = ZERO
        for x, y in zip(ea, eb):
            s = add(s, mul(x, y))
        return s
    return None


def minv(a):
    return lift(_minv, (a,))


def _minv(a):
    a = tup2arr(a)
    if a.op == 'arr' and len(a.args[0]) == 2 and a.args[0][0] == a.args[0][1] and a.args[0][0] <= 3:
        n = a.args[0][0]
        el = a.args[1]
        g = lambda i, j: el[i * n + j]
        if n == 1:
            return arr((1, 1), [div(ONE, el[0])])
        if n == 2:
            d = sub(mul(g(0, 0), g(1, 1)), mul(g(0, 1), g(1, 0)))
            return arr((2, 2), [div(g(1, 1), d), div(neg(g(0, 1)), d), div(neg(g(1, 0)), d), div(g(0, 0), d)])
        cof = lambda i, j: sub(mul(g((i + 1) % 3, (j + 1) % 3), g((i + 2) % 3, (j + 2) % 3)),
                               mul(g((i + 1) % 3, (j + 2) % 3), g((i + 2) % 3, (j + 1) % 3)))
        d = ZERO
        for j in range(3):
            d = add(d, mul(g(0, j), cof(0, j)))
        return arr((3, 3), [div(cof(j, i), d) for i in range(3) for j in range(3)])
    if a.op == 'minv':
        return a.args[0]
    return mk('minv', a)


# ---------------------------------------------------------------- elementwise

def filler(t):
    """the whole number a blank array is filled with"""
    if t.op == 'poly' and len(t.args[0]) == 2 or t.op == 'zeros':
        k, blank = 0, None
        for m, co in to_poly(t).items():
            if not m:
                k = co
            elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'zeros' and co == 1 and is_int(m[0][0].args[0]):
                blank = m[0][0]
        if blank is not None:
            return num(k + blank.args[0].args[0])
    return None


def where(c, a, b):
    if c.op in ('bool',):
        return a if c is TRUE else b
    if a is b:
        return a
    if is_cond(c):
        # choose polarity canonically
        n = b_not(c)
        if n.id < c.id:
            c, a, b = n, b, a
        if c.op == 'bdd' and c.args[0].op == 'pos' and is_const(c.args[1]) and is_const(c.args[2]) and not ({'ite', 'tuple', 'arr', 'qty', 'str'} & {a.op, b.op}):
            # the larger or the smaller of the two compared values
            g = c.args[0].args[0]
            hi, lo = (a, b) if c.args[1] is TRUE else (b, a)
            for x, y, w in ((hi, lo, 'maximum'), (lo, hi, 'minimum')):
                d = sub(x, y)
                if d is g or d.op == 'poly' and c_pos(d) is mk('bdd', c.args[0], TRUE, FALSE):
                    return mk_ufunc(w, x, y)
        elif c.op == 'bdd' and any(x.op == 'ufunc' and x.args[0] in ('maximum', 'minimum') for x in (a, b)) and not ({'ite', 'tuple', 'arr', 'qty', 'str', 'where'} & {a.op, b.op}):
            # the same, when the comparison of a larger or a smaller of two was split into its parts
            up, down = c_pos(sub(a, b)), c_pos(sub(b, a))
            if c is up or c is b_not(down):
                return mk_ufunc('maximum', a, b)
            if c is down or c is b_not(up):
                return mk_ufunc('minimum', a, b)
    return mk('where', c, a, b)


def spread(x, dims, src):
    """x repeated along new or unit dimensions: output dimension k runs along dimension src[k] of x, or along none of them"""
    r = rank_of(x)
    if r is not None and len(dims) == r and list(src) == list(range(r)):
        return x
    return mk('spread', x, mk('tuple', *dims), mk('tuple', *[NONE if k is None else num(k) for k in src]))


def spread_items(t, items):
    """the index of the source of a spread, for a scalar index in every dimension"""
    x, dims, src = t.args
    its = [ZERO] * rank_of(x)
    for k, j in zip(src.args, items):
        if k is not NONE:
            its[intval(k)] = j
    return its


def tiled(x, reps):
    """numpy.tile along dimensions of one element (or new ones) only"""
    r = rank_of(x)
    sh = shape(x)
    if not r or sh.op != 'tuple':
        return None
    n = max(r, len(reps))
    reps = [ONE] * (n - len(reps)) + list(reps)
    dims, src = [], []
    for k in range(n):
        j = k - (n - r)
        if j < 0:
            dims.append(reps[k])
            src.append(None)
        elif reps[k] is ONE:
            dims.append(sh.args[j])
            src.append(j)
        elif sh.args[j] is ONE:
            dims.append(reps[k])
            src.append(None)
        else:
            return None
    return spread(x, dims, src)


def _lead_sign(t):
    p = to_poly(t)
    lead = _t._lead(p)
    return -1 if p[lead] < 0 else 1


ODD = {'sin', 'arcsin', 'arctan', 'sinh', 'tanh', 'sign', 'rint', 'trunc'}
EVEN = {'cos', 'cosh', 'abs'}


def mk_ufunc(name, *args):
    return lift(lambda *a: _ufunc(name, a), args)


def _ufunc(name, args):
    args = tuple(boolnum(a) for a in args)
    if args[0].op == 'qty' and len(args) == 1:
        if name in ('sin', 'cos', 'tan'):
            return mk_ufunc(name, mul(args[0].args[0], args[0].args[1]))
        if name == 'abs':
            return mk('qty', mk_ufunc(name, args[0].args[0]), args[0].args[1])
    if len(args) == 1 and args[0].op == 'arr':
        return arr(args[0].args[0], [mk_ufunc(name, x) for x in args[0].args[1]])
    if len(args) == 2 and all(a.op == 'arr' for a in args) and args[0].args[0] == args[1].args[0]:
        return arr(args[0].args[0], [mk_ufunc(name, x, y) for x, y in zip(args[0].args[1], args[1].args[1])])
    if len(args) == 2 and args[0].op == 'arr' and is_scalar(args[1]):
        return arr(args[0].args[0], [mk_ufunc(name, x, args[1]) for x in args[0].args[1]])
    a = args[0]
    if name == 'tan':
        return div(mk_ufunc('sin', a), mk_ufunc('cos', a))
    if name in ('sin', 'cos'):
        if a is ZERO:
            return ZERO if name == 'sin' else ONE
        p = to_poly(a)
        # multiples of pi/2 offsets
        pk = ((PI, 1),)
        if pk in p:
            q = p[pk] * 2
            if q.denominator == 1 and q != 0 and (len(p) == 1 or True):
                k = int(q) % 4
                rest = dict(p)
                rest.pop(pk)
                r = from_poly(rest)
                if name == 'sin':
                    f = [lambda r: mk_ufunc('sin', r), lambda r: mk_ufunc('cos', r), lambda r: neg(mk_ufunc('sin', r)), lambda r: neg(mk_ufunc('cos', r))][k]
                else:
                    f = [lambda r: mk_ufunc('cos', r), lambda r: neg(mk_ufunc('sin', r)), lambda r: neg(mk_ufunc('cos', r)), lambda r: mk_ufunc('sin', r)][k]
                return f(r)
        if a.op == 'ufunc' and a.args[0] in ('arcsin', 'arccos'):
            x = a.args[1]
            if (name, a.args[0]) in (('sin', 'arcsin'), ('cos', 'arccos')):
                return x
            return power(sub(ONE, mul(x, x)), num(HALF))
    if name in ODD or name in EVEN:
        if a.op == 'num' and name == 'abs':
            return num(abs(a.args[0]))
        if a.op in ('num', 'poly') and a is not ZERO and _lead_sign(a) < 0:
            r = mk_ufunc(name, neg(a))
            return neg(r) if name in ODD else r
        if a is ZERO and name in ODD:
            return ZERO
    if name == 'abs':
        k, b = _content(a)
        if k != 1:
            return mul(num(abs(k)), mk('ufunc', 'abs', b))
        if a.op == 'ufunc' and a.args[0] in ('abs', 'exp', 'sqrt'):
            return a
    if name in ('floor', 'ceil', 'rint', 'trunc') and a.op == 'num':
        v = a.args[0]
        import math
        return num({'floor': math.floor, 'ceil': math.ceil, 'rint': round, 'trunc': math.trunc}[name](v))
    if name in ('floor', 'ceil', 'rint', 'trunc') and a.op == 'ufunc' and a.args[0] in ('floor', 'ceil', 'rint', 'trunc'):
        return a
    if name == 'ceil':
        pass
    if name == 'exp' and a is ZERO:
        return ONE
    if name in ('maximum', 'minimum'):
        if args[0] is args[1]:
            return args[0]
        if all(x.op == 'num' for x in args):
            f = max if name == 'maximum' else min
            return num(f(args[0].args[0], args[1].args[0]))
        args = tuple(sorted(args))
        return mk('ufunc', name, *args)
    if name == 'arctan2' and False:
        pass
    return mk('ufunc', name, *args)


def rb_index(o, items):
    return index_items(o, items)


REBUILD.update({
    'slice': lambda a, b, c: lift(norm_slice, (a, b, c)),
    'index': lambda o, items: index_items(o, items),
    'store': lambda o, items, v: store_items(o, items, v),
    'shape': shape,
    'size': size,
    'reshape': reshape,
    'transpose': lambda a, *ax: transpose(a, *ax),
    'quot': lambda a, b: lift(_t._quot, (a, b)) if b.op in ('poly', 'ite') else div(a, b), 'matmul': matmul, 'inner': matmul, 'rowdot': lambda a, b: mk('rowdot', *sorted((a, b), key=lambda t: t.id)),
    'minv': minv,
    'where': where,
    'ufunc': lambda n, *a: mk_ufunc(n, *a),
    'concat': concat,
    'strcat': lambda p: strcat(p),
    'tostr': tostr,
    'pow': power,
    'div': div,
    'map': lambda n, body, c, bv: mk('map', n, body, c, bv),
})


_t.RANK_OF[0] = rank_of
