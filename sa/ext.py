"""Array extensionality: two arrays of one shape are equal when their elements at a generic index are."""
from .terms import *
from . import terms as _t
from .structs import (rank_of, shape, index_items, scalar_idx, idx_items, FULL, ELL, reshape, subst_top_atoms, whole_extent, mk_ufunc, where, MINUS1, spread_items)

GENERIC = [sym('#e%d' % k, scalar=True, nonnull=True) for k in range(5)]
KINDS = {'storemap', 'store', 'reshape', 'transpose', 'index', 'map', 'poly', 'ufunc', 'where', 'astype', 'spread', 'grid', 'rowdot', 'matmul', 'stack'}


def ndim(t):
    r = rank_of(t)
    if r is not None:
        return r
    if t.op == 'transpose':
        if len(t.args) == 2 and t.args[1].op == 'tuple':
            return len(t.args[1].args)
        return ndim(t.args[0])
    if t.op in ('store', 'storemap', 'astype'):
        return ndim(t.args[0])
    if t.op == 'map' and t.args[2] is TRUE:
        n = 0 if is_scalar(t.args[1]) else ndim(t.args[1])
        return None if n is None else n + 1
    s = shape(t)
    return len(s.args) if s.op == 'tuple' else None


def dims(t):
    if t.op == 'transpose' and len(t.args) == 2 and t.args[1].op == 'tuple':
        d = dims(t.args[0])
        return None if d is None else [d[intval(x)] for x in t.args[1].args]
    if t.op == 'transpose' and len(t.args) == 1:
        d = dims(t.args[0])
        return None if d is None else d[::-1]
    if t.op == 'map' and t.args[2] is TRUE:
        d = [] if is_scalar(t.args[1]) else dims(t.args[1])
        return None if d is None or any(contains(x, lambda z: z is t.args[3]) for x in d) else [t.args[0]] + d
    s = shape(t)
    return list(s.args) if s.op == 'tuple' else None


def opaque_dim(d):
    """the dimension of a reshape that was left to be worked out from the size"""
    if not (d.op == 'index' and d.args[0].op == 'shape' and d.args[0].args[0].op == 'reshape' and len(d.args[1]) == 1 and is_int(d.args[1][0])):
        return False
    s = d.args[0].args[0].args[1]
    k = intval(d.args[1][0])
    return s.op != 'tuple' or 0 <= k < len(s.args) and s.args[k] is MINUS1


def flat(src, lin, ds, ix):
    """element of src at row-major position lin, which is index ix of an array of dimensions ds"""
    if src.op == 'reshape':
        return flat(src.args[0], lin, ds, ix)
    if src.op == 'astype':
        e = flat(src.args[0], lin, ds, ix)
        return None if e is None else mk('astype', e, src.args[1])
    n = ndim(src)
    if n == 1:
        return elem(src, [lin])
    sd = dims(src)
    if sd is not None:
        out = []
        d, x = list(ds), list(ix)
        k = len(sd) - 1
        while k > 0 and d:
            # gather trailing dimensions until their product is sd[k]
            p, stride, val = ONE, ONE, ZERO
            done = False
            while d:
                val = add(val, mul(x.pop(), stride))
                p = mul(p, d.pop())
                stride = p
                if p is sd[k]:
                    done = True
                    break
            if not done:
                out = None
                break
            out.insert(0, val)
            k -= 1
        if out is not None and k == 0 and d:
            stride, val = ONE, ZERO
            while d:
                val = add(val, mul(x.pop(), stride))
                stride = mul(stride, d.pop())
            out.insert(0, val)
            return elem(src, out)
    return mk('index', mk('reshape', src, mk('tuple', MINUS1)), (lin,))


def spread_elem(a, n, ix):
    """the element an operand of rank n contributes to the element ix of what it is combined into"""
    if n is None or n > len(ix):
        return None
    if n < len(ix):
        ds = dims(a)
        if ds is None or ONE in ds:
            return None
    return elem(a, list(ix)[len(ix) - n:])


def elem(t, ix):
    ix = list(ix)
    if is_scalar(t) or t.op == 'num':
        return t
    o = t.op
    if o == 'ite':
        c = atom_cond(t.args[0])
        a, b = elem(t.args[1], ix), elem(t.args[2], ix)
        return None if a is None or b is None else ite(c, a, b)
    if o == 'transpose':
        src = t.args[0]
        n = len(ix)
        if len(t.args) == 2:
            if t.args[1].op != 'tuple' or len(t.args[1].args) != n:
                return None
            ax = [intval(x) % n for x in t.args[1].args]
        else:
            ax = list(range(n))[::-1]
        j = [None] * n
        for k, a in enumerate(ax):
            j[a] = ix[k]
        return None if None in j else elem(src, j)
    if o == 'reshape':
        s = t.args[1]
        if s.op != 'tuple' or len(s.args) != len(ix):
            return None
        lin, stride = ZERO, ONE
        for k in range(len(ix) - 1, -1, -1):
            lin = add(lin, mul(ix[k], stride))
            if k:
                stride = mul(stride, s.args[k])
        return flat(t.args[0], lin, list(s.args), ix)
    if o == 'poly':
        m = {}
        for mono, c in t.args[0]:
            for a, e in mono:
                if not is_scalar(a) and a not in m:
                    n = ndim(a)
                    if n == 0:
                        continue
                    x = spread_elem(a, n, ix)
                    if x is None:
                        return None
                    m[a] = x
        return subst_top_atoms(t, m)
    if o == 'ufunc':
        xs = []
        for a in t.args[1:]:
            if isinstance(a, T) and not is_scalar(a):
                a = spread_elem(a, ndim(a), ix)
                if a is None:
                    return None
            xs.append(a)
        return mk_ufunc(t.args[0], *xs)
    if o == 'astype':
        e = elem(t.args[0], ix)
        return None if e is None else mk('astype', e, t.args[1])
    if o == 'spread':
        return elem(t.args[0], spread_items(t, ix)) if len(ix) == len(t.args[1].args) else None
    if o == 'index':
        base, items = t.args
        if ELL in items:
            return None
        n = ndim(base)
        j = []
        rest = list(ix)
        for k, it in enumerate(items):
            if it is NONE:
                if not rest:
                    return None
                rest.pop(0)
            elif it.op == 'slice':
                lo, hi, st = it.args
                if st is not NONE and not (is_int(st) and intval(st) > 0) or not rest:
                    return None
                if lo is NONE:
                    lo = ZERO
                elif is_num(lo) and lo.args[0] < 0:
                    return None
                x = rest.pop(0)
                j.append(add(lo, mul(st, x) if st is not NONE else x))
            elif scalar_idx(it):
                j.append(it)
            else:
                return None
        return elem(base, j + rest)
    if o == 'storemap':
        A, binders, sidx, val, cond = t.args
        if cond is not TRUE or len(sidx) > len(ix):
            return None
        m, rest = {}, []
        for k, s in enumerate(sidx):
            if s.op == 'bv' and s not in m:
                if not whole_extent(A, k, dict(binders).get(s)):
                    return None
                m[s] = ix[k]
            elif s is FULL:
                rest.append(ix[k])
            else:
                return None
        if set(m) != set(b for b, n in binders):
            return None
        rest += ix[len(sidx):]
        v = subst(val, m)
        if v.op == 'index' and len(v.args[1]) == 1 and v.args[1][0].op == 'slice' and len(rest) == 1:
            # a cut of the wrong length does not fit the place it is put in
            lo, hi, st = v.args[1][0].args
            dA = dims(A)
            free = [k for k in range(len(ix)) if k >= len(sidx) or sidx[k] is FULL]
            if st is NONE and dA is not None and len(free) == 1 and not (hi is NONE and lo is NONE):
                if hi is NONE:
                    dv = dims(v.args[0])
                    if dv is not None and len(dv) == 1:
                        hi = dv[0]
                if hi is NONE or sub(hi, ZERO if lo is NONE else lo) is not dA[free[0]]:
                    return None
        if is_scalar(v) or not rest:
            return v
        nv = ndim(v)
        return elem(v, rest[len(rest) - nv:]) if nv is not None and nv <= len(rest) else index_items(v, tuple(rest))
    if o == 'store':
        base, si, v = t.args
        if all(x is FULL for x in si):
            return v if is_scalar(v) else elem(v, ix) if ndim(v) == len(ix) else None
        return None
    if o == 'map' and t.args[2] is TRUE and ix:
        v = subst(t.args[1], {t.args[3]: ix[0]})
        return v if len(ix) == 1 else elem(v, ix[1:])
    r = index_items(t, tuple(ix))
    return r


def dtype_of_term(t):
    o = t.op
    if o == 'zeros':
        return t.args[2] if len(t.args) > 2 else mk('str', 'dtype:float64')
    if o in ('store', 'storemap', 'reshape', 'transpose', 'index'):
        return dtype_of_term(t.args[0])
    if o == 'astype':
        return t.args[1]
    if o == 'sym':
        return mk('attr', t, 'dtype')
    return None


def untile(A, binders, idx, v, c):
    """contiguous equal tiles written one after the other into a whole 1-d buffer are the rows of an n-d array"""
    if c is not TRUE or len(idx) != 1 or idx[0].op != 'slice' or A.op != 'zeros':
        return None
    lo, hi, st = idx[0].args
    if st is not NONE or hi is NONE:
        return None
    lo = ZERO if lo is NONE else lo
    w = sub(hi, lo)
    S = A.args[1]
    if S.op == 'tuple':
        if len(S.args) != 1:
            return None
        S = S.args[0]
    bs = [b for b, n in binders]
    if w.mbv or any(n.mbv for b, n in binders) or not 1 <= len(bs) <= 3:
        return None
    import itertools
    for perm in itertools.permutations(binders):
        stride, e = w, ZERO
        for b, n in reversed(perm):
            e = add(e, mul(b, stride))
            stride = mul(stride, n)
        if e is lo and stride is S:
            sh = mk('tuple', *([n for b, n in perm] + [w]))
            z = mk('zeros', mk('any'), sh) if len(A.args) == 2 else mk('zeros', mk('any'), sh, A.args[2])
            return z, tuple(perm), tuple(b for b, n in perm)
    return None
