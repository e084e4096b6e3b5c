"""Hash-consed value terms with an exact normal form (the value-numbering domain).

A term is never evaluated on data.  Arithmetic is kept as polynomials with
rational coefficients over opaque atoms, conditions as ordered decision
diagrams over atomic predicates, joins as gated `ite` nodes.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)


class T(object):
    __slots__ = ('op', 'args', 'id', 'mbv', 'ites', '_syms')

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return show(self)

    # identity equality / hash (hash-consing)


_tab = {}
SYMINFO = {}


class Budget(Exception):
    pass


_limit = [0]


def reset_budget(n=3000000):
    _limit[0] = len(_tab) + n


def _iter_terms(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            for z in _iter_terms(y):
                yield z


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        if _limit[0] and len(_tab) > _limit[0]:
            raise Budget('term budget exhausted')
        t = T()
        t.op = op
        t.args = args
        t.id = len(_tab)
        t._syms = None
        m = 0
        for a in _iter_terms(args):
            if a.mbv > m:
                m = a.mbv
        if op == 'bv':
            m = max(m, args[0])
        t.mbv = m
        _tab[k] = t
    return t


def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return mk('float', repr(x))
        x = Fraction(repr(x))
    elif not isinstance(x, Fraction):
        x = Fraction(x)
    return mk('num', x)


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    if isinstance(v, str):
        return mk('str', v)
    if isinstance(v, bytes):
        return mk('bytes', v)
    if v is Ellipsis:
        return ELL
    if isinstance(v, complex):
        return mk('complex', repr(v))
    raise TypeError(v)


TRUE = mk('bool', True)
FALSE = mk('bool', False)
NONE = mk('none')
ELL = mk('ellipsis')
ZERO = num(0)
ONE = num(1)
HALF = Fraction(1, 2)
FULL = mk('slice', NONE, NONE, NONE)
PI = mk('pi')
NAN = mk('float', 'nan')


def sym(name, **info):
    # the same name with other type information (another obligation) is another symbol
    while name in SYMINFO and SYMINFO[name] != info:
        name += "'"
    SYMINFO[name] = info
    return mk('sym', name)


_top = [0]


def top(reason):
    _top[0] += 1
    return mk('top', reason, _top[0])


def is_const(t):
    return t.op in ('num', 'bool', 'none', 'str', 'bytes', 'ellipsis', 'float')


def is_num(t):
    return t.op == 'num'


def numval(t):
    return t.args[0]


def is_int(t):
    return t.op == 'num' and t.args[0].denominator == 1


def intval(t):
    return int(t.args[0])


# ---------------------------------------------------------------- conditions

def is_cond(t):
    return t.op == 'bool' or t.op == 'bdd'


def bdd_ite(c, a, b):
    """boolean if-then-else on decision diagrams"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _bcache.get(k)
    if r is not None:
        return r
    atom = min(x.args[0] for x in (c, a, b) if x.op == 'bdd')
    hi = bdd_ite(_co(c, atom, 1), _co(a, atom, 1), _co(b, atom, 1))
    lo = bdd_ite(_co(c, atom, 2), _co(a, atom, 2), _co(b, atom, 2))
    r = _node(atom, hi, lo)
    _bcache[k] = r
    return r


_bcache = {}


def bdd_given(f, care):
    """a simple condition that equals f wherever care holds"""
    if f.op != 'bdd' or care.op != 'bdd':
        return f
    a, v = care.args[0], f.args[0]
    if not v < a:
        # the condition is known, or does not matter
        if care.args[1] is FALSE:
            return bdd_given(_co(f, a, 2), care.args[2])
        if care.args[2] is FALSE:
            return bdd_given(_co(f, a, 1), care.args[1])
    if a < v:
        return bdd_given(f, b_or(care.args[1], care.args[2]))
    hi, lo = bdd_given(f.args[1], _co(care, v, 1)), bdd_given(f.args[2], _co(care, v, 2))
    return _node(v, hi, lo)


def spine_given(t, care):
    """a value that equals t wherever care holds"""
    if t.op == 'bdd':
        return bdd_given(t, care)
    if t.op != 'ite' or care.op != 'bdd':
        return t
    a, v = care.args[0], t.args[0]
    if not v < a:
        if care.args[1] is FALSE:
            return spine_given(_coi(t, a, 2), care.args[2])
        if care.args[2] is FALSE:
            return spine_given(_coi(t, a, 1), care.args[1])
    if a < v:
        return spine_given(t, b_or(care.args[1], care.args[2]))
    return ite(atom_cond(v), spine_given(t.args[1], _co(care, v, 1)), spine_given(t.args[2], _co(care, v, 2)))


def _co(t, atom, w):
    if t.op == 'bdd' and t.args[0] is atom:
        return t.args[w]
    return t


def _node(atom, hi, lo):
    if hi is lo:
        return hi
    hi = restrict_spine(hi, atom, True)
    lo = restrict_spine(lo, atom, False)
    if hi is lo:
        return hi
    return mk('bdd', atom, hi, lo)


def b_not(c):
    if is_cond(c):
        return bdd_ite(c, FALSE, TRUE)
    return bdd_ite(as_cond(c), FALSE, TRUE)


def b_and(*cs):
    r = TRUE
    for c in cs:
        r = bdd_ite(r, c, FALSE)
    return r


def b_or(*cs):
    r = FALSE
    for c in cs:
        r = bdd_ite(r, TRUE, c)
    return r


def atom_cond(atom):
    return mk('bdd', atom, TRUE, FALSE)


NONNULL_OPS = {'poly', 'num', 'str', 'bool', 'bdd', 'arr', 'tuple', 'map', 'store', 'zeros', 'slice',
               'shape', 'matmul', 'obj', 'func', 'class', 'ext', 'dict', 'pi', 'storemap', 'sum',
               'where', 'reshape', 'transpose', 'concat', 'strcat', 'ufunc', 'bv', 'bytes', 'float', 'module',
               'lambda', 'filter', 'astype', 'stack', 'inv', 'open', 'quot', 'inner', 'rowdot', 'minv', 'sum1', 'len', 'grid', 'range', 'repeat'}


def nonnull(t):
    if t.op == 'index' and t.args[0].op == 'sym' and SYMINFO.get(t.args[0].args[0], {}).get('elnonnull'):
        return True
    if t.op in NONNULL_OPS:
        return True
    if t.op == 'sym':
        return bool(SYMINFO.get(t.args[0], {}).get('nonnull'))
    if t.op == 'index':
        return any(isinstance(i, T) and i.op == 'slice' for i in t.args[1])      # a slice of something is something
    if t.op == 'call':
        f = t.args[0]
        return isinstance(f, str) and (f.startswith('numpy.') or f.startswith('np.') or f in ('int', 'float', 'str', 'len', 'abs', 'round', 'seaborn.color_palette', '.split', '.replace', '.strip', '.lower', '.upper', '.join', '.format'))
    return False


def c_isnone(t):
    if t is NONE:
        return TRUE
    if nonnull(t):
        return FALSE
    if t.op == 'ite':
        return bdd_ite(mk('bdd', t.args[0], TRUE, FALSE), c_isnone(t.args[1]), c_isnone(t.args[2]))
    return atom_cond(mk('isnone', t))


def text_search(p):
    """(member condition, coefficient, constant, what a failed search answers) of a number that is one text search, else None"""
    if len(p) > 2:
        return None
    c0, k, z = 0, None, None
    for m, c in p.items():
        if not m:
            c0 = c
        elif z is None and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'call' and m[0][0].args[0] in ('.find', '.count') and len(m[0][0].args[1]) == 2 and not m[0][0].args[2]:
            z, k = m[0][0], c
        else:
            return None
    if z is None:
        return None
    s, x = z.args[1]
    if z.args[0] == '.find' or x.op == 'str':
        return mk('in', x, s), k, c0, -1 if z.args[0] == '.find' else 0


# library values that are one character of a known alphabet
ALPHABETS = {('utm.from_latlon', 3): 'CDEFGHJKLMNPQRSTUVWX'}


def alphabet(t):
    if t.op == 'index' and t.args[0].op == 'call' and len(t.args[1]) == 1 and is_int(t.args[1][0]):
        return ALPHABETS.get((t.args[0].args[0], intval(t.args[1][0])))
    return None


def letter_cond(t, test):
    """the condition that a letter of a known alphabet passes a test, as the set of letters that do"""
    al = alphabet(t)
    yes = ''.join(x for x in al if test(x))
    if not yes or yes == al:
        return const(bool(yes))
    if al[0] in yes:
        return atom_cond(mk('in', t, const(yes)))
    return b_not(atom_cond(mk('in', t, const(''.join(x for x in al if x not in yes)))))


def letter_order(p):
    """letter against text, as a condition"""
    if len(p) != 2 or any(len(m) != 1 or m[0][1] != 1 or abs(c) != 1 for m, c in p.items()) or sum(p.values()) != 0:
        return None
    (a, ca), (b, cb) = [(m[0][0], c) for m, c in p.items()]
    for x, cx, y in ((a, ca, b), (b, cb, a)):
        if y.op == 'str' and alphabet(x):
            w = y.args[0]
            return letter_cond(x, (lambda l: l > w) if cx > 0 else (lambda l: l < w))
    return None


def search_cond(p, rel):
    """rel of a number that is one text search, when it only asks whether the text is found"""
    r = text_search(p)
    if r is None:
        return None
    at, k, c0, miss = r
    # found: every integer above miss
    low = k * (miss + 1) + c0
    if rel == 'eq':
        return None if k * miss + c0 != 0 else b_not(atom_cond(at))
    here = k * miss + c0 > 0
    if k > 0 and not here and low > 0:
        return atom_cond(at)
    if k < 0 and here and not low > 0:
        return b_not(atom_cond(at))
    return None


def c_pos(t):
    """t > 0"""
    if t.op == 'num':
        return TRUE if t.args[0] > 0 else FALSE
    if t.op == 'ite':
        return bdd_ite(mk('bdd', t.args[0], TRUE, FALSE), c_pos(t.args[1]), c_pos(t.args[2]))
    if t.op == 'call' and t.args[0] == 'abs':
        pass
    p = to_poly(t)
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ufunc' and m[0][0].args[0] in ('maximum', 'minimum') and len(m[0][0].args) == 3:
            # the larger exceeds a bound when either does, the smaller when both do
            q = dict(p)
            del q[m]
            q = from_poly(q)
            x, y = [c_pos(add(q, mul(num(c), z))) for z in m[0][0].args[1:]]
            return b_or(x, y) if (c > 0) == (m[0][0].args[0] == 'maximum') else b_and(x, y)
    r = search_cond(p, 'pos')
    if r is None:
        r = letter_order(p)
    if r is not None:
        return r
    # normalise by positive content; choose canonical sign representation pos(p)
    lead = _lead(p)
    c = abs(p[lead])
    if c != 1:
        t = from_poly(dict((m, v / c) for m, v in p.items()))
    return atom_cond(mk('pos', t))


def c_lt(a, b):
    return c_pos(sub(b, a))


def c_le(a, b):
    return b_not(c_pos(sub(a, b)))


NUMPY_TYPES = set('numpy.' + n for n in 'uint8 uint16 uint32 uint64 int8 int16 int32 int64 float16 float32 float64 complex64 complex128 bool_'.split())
BUILTIN_TYPES = {'int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'types.NoneType', 'bytes', 'complex'}


def c_eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        if a.op in ('num', 'bool') and b.op in ('num', 'bool'):
            return TRUE if Fraction(a.args[0]) == Fraction(b.args[0]) else FALSE
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite':
            return bdd_ite(mk('bdd', x.args[0], TRUE, FALSE), c_eq(x.args[1], y), c_eq(x.args[2], y))
    if a is NONE:
        return c_isnone(b)
    if b is NONE:
        return c_isnone(a)
    if a.op == 'ext' and b.op == 'ext' and (a.args[0] in BUILTIN_TYPES and b.args[0] in BUILTIN_TYPES or a.args[0] in NUMPY_TYPES and b.args[0] in NUMPY_TYPES):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if y.op == 'str' and x.op == 'index' and alphabet(x):
            return letter_cond(x, lambda l: l == y.args[0])
        if x.op == 'call' and x.args[0] == 'numpy.dtype' and len(x.args[1]) == 1 and x.args[1][0].op == 'ext' and y.op == 'ext' and y.args[0] in NUMPY_TYPES:
            return c_eq(x.args[1][0], y)
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.args) != len(b.args):
            return FALSE
        return b_and(*[c_eq(x, y) for x, y in zip(a.args, b.args)])
    if is_cond(a) and b.op == 'bool':
        return a if b is TRUE else b_not(a)
    if is_cond(b) and a.op == 'bool':
        return b if a is TRUE else b_not(b)
    if 'poly' in (a.op, b.op) or 'num' in (a.op, b.op):
        # numeric: zero(a-b) with canonical sign
        sc = (a, b)
        if 'call' in (a.op, b.op) or 'poly' in (a.op, b.op):
            r = search_cond(to_poly(sub(a, b)), 'eq')
            if r is not None:
                return r
        for x, y in (sc, sc[::-1]):
            if y.op == 'num' and x.op != 'poly':
                return atom_cond(mk('eq', x, y))
        d = sub(a, b)
        if d.op == 'num':
            return TRUE if d.args[0] == 0 else FALSE
        p = to_poly(d)
        lead = _lead(p)
        k = p[lead]
        d = from_poly(dict((m, v / k) for m, v in p.items()))
        # x - c  -> eq(x, c)
        p = to_poly(d)
        if len(p) == 2 and () in p:
            m = [q for q in p if q != ()][0]
            if len(m) == 1 and m[0][1] == 1 and p[m] == 1:
                return atom_cond(mk('eq', m[0][0], num(-p[()])))
        if len(p) == 1:
            m = list(p)[0]
            if len(m) == 1 and m[0][1] == 1:
                return atom_cond(mk('eq', m[0][0], ZERO))
        if len(p) == 2 and () not in p:
            ms = list(p)
            if all(len(m) == 1 and m[0][1] == 1 for m in ms) and p[ms[0]] == -p[ms[1]]:
                x, y = ms[0][0][0], ms[1][0][0]
                if y < x:
                    x, y = y, x
                return atom_cond(mk('eq', x, y))
        return atom_cond(mk('zero', d))
    if is_const(a):
        a, b = b, a
    elif not is_const(b) and b < a:
        a, b = b, a
    return atom_cond(mk('eq', a, b))


def as_cond(t):
    """truth value of t"""
    if is_cond(t):
        return t
    if t.op == 'num':
        return TRUE if t.args[0] != 0 else FALSE
    if t.op == 'str':
        return TRUE if t.args[0] else FALSE
    if t is NONE:
        return FALSE
    if t.op == 'ite':
        return bdd_ite(mk('bdd', t.args[0], TRUE, FALSE), as_cond(t.args[1]), as_cond(t.args[2]))
    if t.op == 'tuple':
        return TRUE if t.args else FALSE
    if t.op in ('obj', 'func', 'class', 'ext', 'module'):
        return TRUE
    if t.op == 'call' and t.args[0] == 'bool':
        return as_cond(t.args[1][0])
    if t.op in ('strcat', 'sym') and strish(t):
        return b_not(c_eq(t, const('')))
    if t.op == 'call' and t.args[0] == '.count':
        r = text_search({((t, 1),): 1})
        if r is not None:
            return atom_cond(r[0])
    return atom_cond(mk('truth', t))


def fact_implied(atom, fact, val):
    """does (fact == val) determine atom?  returns True/False/None"""
    if atom is fact:
        return val
    fo = fact.op
    ao = atom.op
    if ao == 'eq' and fo == 'eq':
        if val and atom.args[0] is fact.args[0] and is_const(atom.args[1]) and is_const(fact.args[1]):
            return False
        return None
    if fo == 'isnone' and ao == 'eq' and val and atom.args[0] is fact.args[0] and is_const(atom.args[1]):
        return False
    if fo == 'eq' and ao == 'isnone' and val and atom.args[0] is fact.args[0] and is_const(fact.args[1]):
        return False
    if fo == 'isnone' and val and ao in ('truth', 'isinstance') and atom.args[0] is fact.args[0]:
        return False
    if ao == 'isnone' and fo in ('truth', 'isinstance') and val and atom.args[0] is fact.args[0]:
        return False
    if ao == 'in' and fo == 'in' and val and atom.args[0] is fact.args[0] and atom.args[1].op == 'tuple' and fact.args[1].op == 'tuple':
        a, f = set(atom.args[1].args), set(fact.args[1].args)
        if all(is_const(z) for z in a | f):
            return True if f <= a else False if not f & a else None
    if ao == 'pos' and fo == 'pos' or (ao in ('pos', 'eq', 'zero') and fo in ('pos', 'eq', 'zero')):
        return _arith_implied(atom, fact, val)
    if fo == 'eq' and val and ao == 'truth' and atom.args[0] is fact.args[0] and is_const(fact.args[1]):
        return bool(fact.args[1].args and fact.args[1].args[0])
    return None


def _lin(t):
    """(key of the non-constant part made monic, scale, constant)"""
    p = dict(to_poly(t))
    c = p.pop((), Fraction(0))
    if not p:
        return None
    lead = min(p, key=_mkey)
    k = p[lead]
    return tuple(sorted(((m, v / k) for m, v in p.items()), key=lambda x: _mkey(x[0]))), k, c


def _arith_implied(atom, fact, val):
    # single linear form L with thresholds:  k*L + c > 0, == 0
    def norm(a):
        if a.op == 'eq':
            if not (is_num(a.args[1]) or 'poly' in (a.args[0].op, a.args[1].op) or True):
                return None
            if a.args[1].op in ('str', 'none', 'bool', 'bytes', 'tuple', 'float', 'ellipsis'):
                return None
            r = _lin(sub(a.args[0], a.args[1]))
        else:
            r = _lin(a.args[0])
        return r
    x, y = norm(atom), norm(fact)
    if x is None or y is None or x[0] != y[0]:
        return None
    # fact in terms of L: for pos: L > t (k>0) or L < t (k<0), t = -c/k
    _, ka, ca = x
    _, kf, cf = y
    ta, tf = -ca / ka, -cf / kf
    # represent the fact's set as interval(s): (lo, lo_open, hi, hi_open)
    INF = None
    if fact.op == 'pos':
        if kf > 0:
            fs = ('gt', tf) if val else ('le', tf)
        else:
            fs = ('lt', tf) if val else ('ge', tf)
    else:
        fs = ('eq', tf) if val else ('ne', tf)
    if atom.op == 'pos':
        at = ('gt', ta) if ka > 0 else ('lt', ta)
    else:
        at = ('eq', ta)

    def imp(f, a):
        (fo, t), (ao, s) = f, a
        if fo == 'eq':
            return {'gt': t > s, 'lt': t < s, 'eq': t == s, 'ge': t >= s, 'le': t <= s, 'ne': t != s}[ao]
        if ao == 'gt':
            return (fo == 'gt' and t >= s) or (fo == 'ge' and t > s)
        if ao == 'lt':
            return (fo == 'lt' and t <= s) or (fo == 'le' and t < s)
        if ao == 'ge':
            return fo in ('gt', 'ge') and t >= s
        if ao == 'le':
            return fo in ('lt', 'le') and t <= s
        if ao == 'ne':
            return (fo == 'gt' and t >= s) or (fo == 'ge' and t > s) or (fo == 'lt' and t <= s) or (fo == 'le' and t < s) or (fo == 'ne' and t == s)
        return False
    neg = {'gt': 'le', 'lt': 'ge', 'eq': 'ne'}
    if imp(fs, at):
        return True
    if imp(fs, (neg[at[0]], at[1])):
        return False
    return None


_rscache = {}


def restrict_spine(t, fact, val):
    """simplify the ite/bdd spine of t under fact == val"""
    if t.op not in ('bdd', 'ite'):
        return t
    k = (t, fact, val)
    r = _rscache.get(k)
    if r is not None:
        return r
    a, hi, lo = t.args
    v = fact_implied(a, fact, val)
    if v is True:
        r = restrict_spine(hi, fact, val)
    elif v is False:
        r = restrict_spine(lo, fact, val)
    else:
        h2, l2 = restrict_spine(hi, fact, val), restrict_spine(lo, fact, val)
        if h2 is hi and l2 is lo:
            r = t
        elif h2 is l2:
            r = h2
        else:
            r = mk(t.op, a, h2, l2)
    _rscache[k] = r
    return r


def restrict_facts(t, facts):
    for f, v in facts:
        t = restrict_spine(t, f, v)
    return t


def ite(c, a, b):
    """value-level gated join"""
    c = c if is_cond(c) else as_cond(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_cond(a) and is_cond(b):
        return bdd_ite(c, a, b)
    k = (c, a, b)
    r = _icache.get(k)
    if r is not None:
        return r
    atoms = [x.args[0] for x in (c, a, b) if x.op in ('ite',) or x is c]
    atom = min(atoms)
    hi = ite(_co(c, atom, 1), _coi(a, atom, 1), _coi(b, atom, 1))
    lo = ite(_co(c, atom, 2), _coi(a, atom, 2), _coi(b, atom, 2))
    r = mk_ite(atom, hi, lo)
    _icache[k] = r
    return r


_icache = {}


def _coi(t, atom, w):
    if t.op == 'ite' and t.args[0] is atom:
        return t.args[w]
    return t


def mk_ite(atom, hi, lo):
    if hi is lo:
        return hi
    hi = restrict_spine(hi, atom, True)
    lo = restrict_spine(lo, atom, False)
    if hi is lo:
        return hi
    if is_cond(hi) and is_cond(lo):
        return bdd_ite(atom_cond(atom), hi, lo)
    if hi.op == 'delitem' and hi.args[0] is lo and atom.op == 'in' and atom.args == (hi.args[1], lo):
        return without(lo, hi.args[1])
    return mk('ite', atom, hi, lo)


def without(d, k):
    """the table d without the entry k, if it has one"""
    if d.op == 'mu' and is_const(k):
        n, inits, bodies, b = d.args
        acc = mk('bv', b.args[0] + 1)
        new = _unstore(bodies[0], acc, k)
        if new is not None and inits[0].op == 'dict' and not any(_has(x, acc) for x in bodies[1:]):
            d = mk('mu', n, inits, (new,) + tuple(bodies[1:]), b)
    return mk('call', 'without', (d, k), ())


def _unstore(t, acc, k):
    """t with nothing stored at k; None when t uses acc for more than storing into it"""
    if t is acc:
        return t
    if t.op == 'ite':
        if _has(t.args[0], acc):
            return None
        a, b = _unstore(t.args[1], acc, k), _unstore(t.args[2], acc, k)
        return None if a is None or b is None else ite(atom_cond(t.args[0]), a, b)
    if t.op == 'store' and t.args[0] is acc and len(t.args[1]) == 1 and not _has(t.args[1][0], acc) and not _has(t.args[2], acc):
        x, v = t.args[1][0], t.args[2]
        if x.op == 'ite':
            return lift(lambda y, w: _unstore(mk('store', acc, (y,), w), acc, k), (x, v)) if n_leaves(x) * n_leaves(v) <= LIFT_CAP else None
        return acc if x is k else t
    return None


def _has(t, x):
    seen, todo = set(), [t]
    while todo:
        y = todo.pop()
        if y is x:
            return True
        if y in seen or y.mbv < x.mbv:
            continue
        seen.add(y)
        todo.extend(_iter_terms(y.args))
    return False


def n_leaves(t, cap=10000):
    if t.op != 'ite':
        return 1
    return min(cap, n_leaves(t.args[1], cap) + n_leaves(t.args[2], cap))


LIFT_CAP = 64


def lift(f, args):
    """apply f to args (terms or nested tuples of terms), distributing over ite spines"""
    args = tuple(args)
    flat = [a for a in args if isinstance(a, T) and a.op == 'ite']
    if not flat:
        return f(*args)
    prod = 1
    for a in flat:
        prod *= n_leaves(a)
    if prod > LIFT_CAP:
        # distinct atoms bound the real size
        ats = set()
        for a in flat:
            _spine_atoms(a, ats)
        if 2 ** min(len(ats), 20) > LIFT_CAP:
            return f(*args)
    return _lift(f, args)


def _spine_atoms(t, out):
    if t.op == 'ite':
        out.add(t.args[0])
        _spine_atoms(t.args[1], out)
        _spine_atoms(t.args[2], out)


def _lift(f, args):
    at = None
    for a in args:
        if isinstance(a, T) and a.op == 'ite':
            if at is None or a.args[0] < at:
                at = a.args[0]
    if at is None:
        return f(*args)
    h = tuple(restrict_spine(a, at, True) if isinstance(a, T) and a.op == 'ite' else a for a in args)
    l = tuple(restrict_spine(a, at, False) if isinstance(a, T) and a.op == 'ite' else a for a in args)
    return ite(atom_cond(at), _lift(f, h), _lift(f, l))


# ---------------------------------------------------------------- polynomials

def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def _lead(p):
    """leading monomial, an id-independent-ish deterministic choice"""
    return max(p, key=lambda m: (len(m), _mkey(m)))


def to_poly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args[0])
    if t.op == 'zeros' and len(t.args) == 2 and t.args[0] is not ZERO and is_scalar(t.args[0]):
        return _padd(to_poly(t.args[0]), {((mk('zeros', ZERO, t.args[1]), 1),): Fraction(1)})
    return {((t, 1),): Fraction(1)}


def from_poly(p):
    p = dict((m, c) for m, c in p.items() if c)
    if not p:
        return ZERO
    z = [m for m in p if any(a.op == 'zeros' and a.args[0] is ZERO and len(a.args) == 2 and e > 0 for a, e in m)]
    if z:
        # scalar * zeros(shape) = zeros(shape); scalar + zeros(shape) = full(shape, scalar)
        q = dict((m, c) for m, c in p.items() if m not in z)
        zs = set()
        for m in z:
            zz = [a for a, e in m if a.op == 'zeros' and a.args[0] is ZERO]
            if len(zz) == 1 and all(is_scalar(a) for a, e in m if a is not zz[0]):
                zs.add(zz[0])
            else:
                q[m] = p[m]
        if len(zs) == 1 and all(is_scalar(a) for m in q for a, e in m):
            return mk('zeros', from_poly(q), zs.pop().args[1])
        for a in zs:
            q[((a, 1),)] = Fraction(1)
        p = q
    if len(p) == 1:
        m, c = next(iter(p.items()))
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', tuple(sorted(p.items(), key=lambda x: _mkey(x[0]))))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


def _needs_fix(m):
    for a, e in m:
        if a.op == 'poly' and e > 0 and Fraction(e).denominator == 1:
            return True
        if a.op == 'ufunc' and a.args[0] == 'sin' and e >= 2:
            return True
        if a.op == 'num' and Fraction(e).denominator == 1:
            return True
    return False


def _fix(p):
    """re-normalise monomials (expand sin^2, positive powers of sums)"""
    out = {}
    again = False
    for m, c in p.items():
        if not c:
            continue
        if not _needs_fix(m):
            out[m] = out.get(m, 0) + c
            continue
        again = True
        acc = {(): c}
        for a, e in m:
            if a.op == 'poly' and e > 0 and Fraction(e).denominator == 1:
                q = dict(a.args[0])
                f = {(): Fraction(1)}
                for _ in range(int(e)):
                    f = _pmul(f, q)
            elif a.op == 'ufunc' and a.args[0] == 'sin' and e >= 2:
                cs = mk('ufunc', 'cos', *a.args[1:])
                f = {((a, e - 2),) if e != 2 else (): Fraction(1)}
                g = {(): Fraction(1), ((cs, 2),): Fraction(-1)}
                f = _pmul(f, g)
            elif a.op == 'num' and Fraction(e).denominator == 1:
                f = {(): a.args[0] ** int(e)}
            else:
                f = {((a, e),): Fraction(1)}
            acc = _pmul(acc, f)
        for k, v in acc.items():
            out[k] = out.get(k, 0) + v
    return out


def _pmul(p, q):
    if len(p) * len(q) > 4000:
        raise Budget('polynomial too large')
    out = {}
    fix = False
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            if _needs_fix(m):
                fix = True
            out[m] = out.get(m, 0) + c1 * c2
    return _fix(out) if fix else out


def _padd(p, q, s=1):
    out = dict(p)
    for m, c in q.items():
        v = out.get(m, 0) + s * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def is_arr(t):
    return t.op == 'arr'


def arr(shape, elems):
    return mk('arr', tuple(shape), tuple(elems))


RANK_OF = [lambda t: None]


def _bc(f, a, b):
    """broadcast f over small known arrays (one may be a scalar term); None if not applicable"""
    if is_arr(a) and is_arr(b):
        if a.args[0] == b.args[0]:
            return arr(a.args[0], [f(x, y) for x, y in zip(a.args[1], b.args[1])])
        sa, sb = a.args[0], b.args[0]
        if len(sa) == 2 and len(sb) == 1 and sa[1] == sb[0]:
            n = sb[0]
            return arr(sa, [f(x, b.args[1][i % n]) for i, x in enumerate(a.args[1])])
        if len(sb) == 2 and len(sa) == 1 and sb[1] == sa[0]:
            n = sa[0]
            return arr(sb, [f(a.args[1][i % n], x) for i, x in enumerate(b.args[1])])
        return None
    if is_arr(a) and is_scalar(b):
        return arr(a.args[0], [f(x, b) for x in a.args[1]])
    if is_arr(b) and is_scalar(a):
        return arr(b.args[0], [f(a, x) for x in b.args[1]])
    for x, y in ((a, b), (b, a)):
        # an array of one element against one with as many dimensions
        if is_arr(x) and len(x.args[1]) == 1 and not is_arr(y) and y.op in ('poly', 'sym', 'index', 'ufunc', 'quot', 'astype') and (RANK_OF[0](y) or 0) >= len(x.args[0]):
            e = x.args[1][0]
            if is_scalar(e):
                return f(e, y) if x is a else f(y, e)
    return None


def _mapitem(t):
    return t


def boolnum(t):
    if t.op == 'bool':
        return ONE if t.args[0] else ZERO
    return t


def add(a, b):
    return lift(_add, (a, b))


def _add(a, b):
    if a.op == 'str' and b.op == 'str':
        return const(a.args[0] + b.args[0])
    if strish(a) or strish(b):
        return strcat((a, b))
    if a.op == 'tuple' and b.op == 'tuple':
        return mk('tuple', *(a.args + b.args))
    if a.op in LISTY or b.op in LISTY:
        return concat(a, b)
    r = _bc(add, a, b)
    if r is not None:
        return r
    a, b = boolnum(a), boolnum(b)
    return from_poly(_padd(to_poly(a), to_poly(b)))


def sub(a, b):
    return lift(_sub, (a, b))


def _sub(a, b):
    r = _bc(sub, a, b)
    if r is not None:
        return r
    a, b = boolnum(a), boolnum(b)
    return from_poly(_padd(to_poly(a), to_poly(b), -1))


def mul(a, b):
    return lift(_mul, (a, b))


def _mul(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'str' and is_int(y):
            return const(x.args[0] * intval(y))
        if x.op == 'tuple' and is_int(y):
            return mk('tuple', *(x.args * intval(y)))
        if x.op == 'tuple':
            return mk('repeat', x, y)
    r = _bc(mul, a, b)
    if r is not None:
        return r
    a, b = boolnum(a), boolnum(b)
    for x, y in ((a, b), (b, a)):
        if x is ZERO and y.op == 'zeros' and len(y.args) == 2:
            return mk('zeros', ZERO, y.args[1])
    return from_poly(_pmul(to_poly(a), to_poly(b)))


def neg(a):
    return mul(num(-1), a)


def div(a, b):
    return lift(_div, (a, b))


def _div(a, b):
    r = _bc(div, a, b)
    if r is not None:
        return r
    if a is b and not is_arr(a):
        if b is not ZERO:
            return ONE
    if b.op == 'num' and b.args[0] == 0:
        return mk('div', a, b)
    if a.op == 'poly' and b.op == 'poly' and len(b.args[0]) > 1 and len(a.args[0]) > QUOT_MIN:
        return _quot(a, b)
    return mul(a, power(b, num(-1)))


QUOT_MIN = 3


def _monic(p):
    """p = k * g * rest  with rest monic and without a common monomial factor"""
    k = p[_lead(p)]
    g = None
    for m in p:
        d = dict(m)
        g = d if g is None else dict((x, min(g[x], d[x])) for x in g if x in d)
    g = dict((x, v) for x, v in (g or {}).items() if v)
    for m in p:
        for x, v in m:
            if v < 0 and v < g.get(x, 0):
                g[x] = v
    gm = tuple(sorted(g.items(), key=lambda x: x[0].id))
    rest = _pmul(dict((m, c / k) for m, c in p.items()), {tuple((x, -v) for x, v in gm): Fraction(1)})
    return k, gm, rest


def _quot(a, b):
    """quotient of two sums, kept as one atom (expanded only when equality needs it)"""
    ka, ga, ra = _monic(to_poly(a))
    kb, gb, rb = _monic(to_poly(b))
    pa, pb = from_poly(ra), from_poly(rb)
    if pa is pb:
        q = ONE
    elif pb.op != 'poly':
        return mul(a, power(b, num(-1)))
    else:
        q = mk('quot', pa, pb)
    out = _pmul(to_poly(q), {ga: ka / kb})
    return from_poly(_pmul(out, {tuple((x, -e) for x, e in gb): Fraction(1)}))


def expand_quots(t):
    """polynomial with every top-level quotient atom multiplied out"""
    for _ in range(6):
        p = to_poly(t)
        qs = [a for m in p for a, e in m if a.op == 'quot']
        if not qs:
            return t
        out = {}
        for m, c in p.items():
            acc = {(): c}
            for a, e in m:
                if a.op == 'quot':
                    f = to_poly(mul(power(a.args[0], num(e)), power(a.args[1], num(-e))))
                else:
                    f = {((a, e),): Fraction(1)}
                acc = _pmul(acc, f)
            out = _padd(out, acc)
        t = from_poly(out)
    return t


def quots_independent(t):
    """each quotient atom mentions a symbol found nowhere else in t: then they are algebraically independent"""
    p = to_poly(t)
    ats = set(a for m in p for a, e in m)
    qs = [a for a in ats if a.op == 'quot']
    leafs = dict((a, base_atoms(a)) for a in ats)
    for q in qs:
        rest = set()
        for a in ats:
            if a is not q:
                rest |= leafs[a]
        if not (leafs[q] - rest):
            return False
    return True


def base_atoms(t, acc=None):
    """atoms of a rational expression"""
    if t.op == 'quot':
        return base_atoms(t.args[0]) | base_atoms(t.args[1])
    if t.op == 'poly':
        out = set()
        for m, c in t.args[0]:
            for a, e in m:
                out |= base_atoms(a)
        return out
    return {t}


def power(a, b):
    return lift(_power, (a, b))


def _power(a, b):
    if is_arr(a) and b.op == 'num':
        return arr(a.args[0], [power(x, b) for x in a.args[1]])
    if b.op != 'num':
        return mk('pow', a, b)
    e = b.args[0]
    a = boolnum(a)
    if e == 0:
        return ONE
    if e == 1:
        return a
    if a.op == 'num':
        if a.args[0] == 0:
            return ZERO if e > 0 else mk('pow', a, b)
        if e.denominator == 1:
            return num(a.args[0] ** int(e))
        if e == HALF or e == -HALF:
            v = a.args[0] if e > 0 else 1 / a.args[0]
            if v > 0:
                import math
                n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n * n == v.numerator and d * d == v.denominator:
                    return num(Fraction(n, d))
        return mk('poly', (((((a, e),)), Fraction(1)),))
    p = to_poly(a)
    if e.denominator == 1 and e > 0:
        n = int(e)
        if n > 8:
            return mk('poly', ((((a, n),), Fraction(1)),)) if len(p) == 1 and a.op != 'poly' else mk('pow', a, b)
        r = {(): Fraction(1)}
        for _ in range(n):
            r = _pmul(r, p)
        return from_poly(r)
    if len(p) == 1:
        m, c = next(iter(p.items()))
        if e.denominator == 1:
            r = {tuple((x, k * int(e)) for x, k in m): c ** int(e)}
            return from_poly(_fix(r))
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            return from_poly({((m[0][0], e),): Fraction(1)})
        # c * m: keep content outside when it is a perfect power
        r = power(num(c), num(e)) if c > 0 else None
        if r is not None and r.op == 'num' and c != 1:
            return mul(r, power(from_poly({m: Fraction(1)}), num(e)))
        base = from_poly(p)
        return from_poly({((base, e),): Fraction(1)})
    # sum: make monic, factor the monomial gcd
    lead = _lead(p)
    k = p[lead]
    if e.denominator == 1:
        g = None
        for m in p:
            d = dict(m)
            if g is None:
                g = d
            else:
                g = dict((x, min(g[x], d[x])) for x in g if x in d)
        g = dict((x, v) for x, v in (g or {}).items() if v)
        # also pull out negative exponents so that denominators are polynomial
        for m in p:
            for x, v in m:
                if v < 0 and v < g.get(x, 0):
                    g[x] = v
        gm = tuple(sorted(g.items(), key=lambda x: x[0].id))
        ginv = tuple((x, -v) for x, v in gm)
        base = from_poly(_pmul(dict((m, c / k) for m, c in p.items()), {ginv: Fraction(1)}))
        if base.op != 'poly':
            return mul(mul(num(k ** int(e)), power(base, b)), power(from_poly({gm: Fraction(1)}), b))
        r = {((base, int(e)),): k ** int(e)}
        r = _pmul(r, {tuple((x, v * int(e)) for x, v in gm): Fraction(1)})
        return from_poly(r)
    kk = abs(k)
    r = power(num(kk), num(e))
    base = from_poly(dict((m, c / kk) for m, c in p.items()))
    return mul(r, from_poly({((base, e),): Fraction(1)}))


# --------------------------------------------------- exact rational equality

def rat_zero(t):
    """is the polynomial term identically zero after clearing denominators?"""
    t = clear_den(t)
    return t is ZERO


def clear_den(t, depth=0):
    p = to_poly(t)
    den = {}
    for m in p:
        for a, e in m:
            if e < 0 and Fraction(e).denominator == 1:
                den[a] = min(den.get(a, 0), e)
    dens = [(a, -e) for a, e in den.items()]
    if not any(a.op == 'poly' for a, e in dens):
        return t
    if depth > 4:
        return t
    mult = {tuple(sorted(dens, key=lambda x: x[0].id)): Fraction(1)}
    return clear_den(from_poly(_pmul(p, mult)), depth + 1)


PRIME = (1 << 61) - 1


class _Unknown(Exception):
    pass


def vanishes(t):
    """identity test of a rational expression by evaluation over a prime field, atoms being independent variables
    (sine and cosine of one argument lie on the circle): False is certain, True up to probability degree / 2^61,
    None when fractional powers of sums stand in the way"""
    good = 0
    for seed in range(1, 8):
        try:
            v = _value(t, seed, {})
        except _Unknown:
            return None
        except ZeroDivisionError:
            continue
        if v:
            return False
        good += 1
        if good == 3:
            return True
    return None


def _rand(key, seed):
    import hashlib
    return int.from_bytes(hashlib.blake2b(('%s|%d' % (key, seed)).encode(), digest_size=8).digest(), 'big') % (PRIME - 2) + 1


def _inv(v):
    if not v % PRIME:
        raise ZeroDivisionError
    return pow(v, PRIME - 2, PRIME)


def _value(t, seed, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'num':
        c = Fraction(t.args[0])
        r = c.numerator % PRIME * _inv(c.denominator) % PRIME
    elif t.op == 'quot':
        r = _value(t.args[0], seed, memo) * _inv(_value(t.args[1], seed, memo)) % PRIME
    elif t.op == 'poly':
        r = 0
        for m, c in t.args[0]:
            c = Fraction(c)
            x = c.numerator % PRIME * _inv(c.denominator) % PRIME
            for a, e in m:
                e = Fraction(e)
                if e.denominator == 1:
                    y = _value(a, seed, memo)
                    n = int(e)
                elif e.denominator == 2 and a.op not in ('poly', 'quot', 'num', 'ufunc'):
                    y = _root(a, seed)
                    n = e.numerator
                else:
                    raise _Unknown
                x = x * pow(y if n > 0 else _inv(y), abs(n), PRIME) % PRIME
            r = (r + x) % PRIME
    elif t.op == 'ufunc' and t.args[0] in ('sin', 'cos') and len(t.args) == 2:
        w = _rand('angle%d' % t.args[1].id, seed)
        q = _inv((1 + w * w) % PRIME)
        r = (2 * w * q if t.args[0] == 'sin' else (1 - w * w) * q) % PRIME
    elif t.op in ('arr', 'tuple', 'ite', 'bdd', 'top', 'raise'):
        raise _Unknown
    elif t.op == 'ufunc':
        r = _rand(t.id, seed)
    else:
        r = _root(t, seed) ** 2 % PRIME
    memo[t] = r
    return r


def _root(t, seed):
    return _rand(t.id, seed)


# ---------------------------------------------------------------- strings/lists

STR_OPS = {'str', 'strcat', 'tostr'}
LISTY = {'tuple', 'map', 'concat', 'repeat', 'filter'}


STR_CALLS = {'os.path.join', 'os.path.basename', 'os.path.dirname', 'os.path.abspath', 'os.path.normpath', 'os.path.expanduser', 'os.path.realpath', 'os.getcwd', '.replace',
             '.zfill', '.strip', '.lstrip', '.rstrip', '.lower', '.upper', '.format', '.join', '.title', '.ljust', '.rjust', '.ExportToProj4', '.ExportToWkt', '.srs'}


def strish(t):
    """known to be text"""
    if t.op in STR_OPS:
        return True
    if t.op == 'sym':
        return bool(SYMINFO.get(t.args[0], {}).get('isstr'))
    if t.op == 'ext':
        return t.args[0] in ('os.path.sep', 'os.sep', 'os.linesep', 'os.extsep', 'os.pathsep')
    if t.op == 'call':
        return t.args[0] in STR_CALLS
    return t.op == 'attr' and t.args[1] == 'srs'


def strcat(parts):
    out = []
    for p in parts:
        for q in (p.args[0] if p.op == 'strcat' else (p,)):
            if q.op == 'tostr' and len(q.args) == 1 and not numeric(q.args[0]) and len(parts) > 1:
                q = q.args[0]                  # text put into a format is the text itself
            if q.op == 'str' and out and out[-1].op == 'str':
                out[-1] = const(out[-1].args[0] + q.args[0])
            elif q.op == 'str' and q.args[0] == '':
                pass
            else:
                out.append(q)
    if not out:
        return const('')
    if len(out) == 1 and out[0].op in ('str', 'tostr'):
        return out[0]
    return mk('strcat', tuple(out))


def numeric(t):
    return t.op in ('num', 'bv', 'pi', 'bool', 'len', 'poly', 'ufunc', 'shape', 'sum', 'int', 'pow') or t.op != 'str' and is_scalar(t) and not (
        strish(t))


def tostr(t, spec=None):
    if spec is not None:
        return mk('tostr', t, spec)
    if t.op in ('str', 'strcat', 'tostr'):
        return t
    if is_int(t):
        return const(str(intval(t)))
    return mk('tostr', t)


def concat(*parts):
    out = []
    if len(parts) > 1:
        # library functions that return so many values
        parts = [mk('tuple', *[mk('index', p, (num(k),)) for k in range(len(p.args[1]) - 2)]) if p.op == 'call' and p.args[0] == 'pyproj.transform' and len(p.args[1]) in (4, 5) and not p.args[2]
                 else p for p in parts]
    for p in parts:
        for q in (p.args if p.op == 'concat' else (p,)):
            if q.op == 'tuple' and not q.args:
                continue
            if q.op == 'tuple' and out and out[-1].op == 'tuple':
                out[-1] = mk('tuple', *(out[-1].args + q.args))
            else:
                out.append(q)
    if not out:
        return mk('tuple')
    if len(out) == 1:
        return out[0]
    return mk('concat', *out)


# ---------------------------------------------------------------- substitution

def subst(t, m, cache=None):
    """replace sub-terms (keys of m) and rebuild with normalisation"""
    if cache is None:
        cache = {}
    return _subst(t, m, cache)


def _subst(t, m, cache):
    if t in m:
        return m[t]
    r = cache.get(t)
    if r is not None:
        return r
    if not t.args or t.op in ('num', 'str', 'bool', 'none', 'sym', 'bv', 'top', 'ext'):
        r = t
    else:
        r = rebuild(t, lambda x: _subst(x, m, cache))
    cache[t] = r
    return r


def _maptup(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_maptup(y, f) for y in x)
    return x


REBUILD = {}


def rebuild(t, f):
    op = t.op
    if op == 'poly':
        r = ZERO
        same = True
        parts = []
        for m, c in t.args[0]:
            fac = []
            for a, e in m:
                b = f(a)
                if b is not a:
                    same = False
                fac.append((b, e))
            parts.append((c, fac))
        if same:
            return t
        for c, fac in parts:
            x = num(c)
            for b, e in fac:
                x = mul(x, power(b, num(e)) if e != 1 else b)
            r = add(r, x)
        return r
    if op in ('ite', 'bdd'):
        a, h, l = t.args
        c = f_cond(a, f)
        if op == 'bdd':
            return bdd_ite(c, f(h), f(l))
        return ite(c, f(h), f(l))
    new = tuple(_maptup(x, f) for x in t.args)
    if new == t.args:
        return t
    h = REBUILD.get(op)
    if h:
        return h(*new)
    return mk(op, *new)


def f_cond(a, f):
    """map f over an atomic predicate, returning a condition"""
    if a.op == 'pos':
        return c_pos(f(a.args[0]))
    if a.op == 'eq':
        return c_eq(f(a.args[0]), f(a.args[1]))
    if a.op == 'zero':
        return c_eq(f(a.args[0]), ZERO)
    if a.op == 'isnone':
        return c_isnone(f(a.args[0]))
    if a.op == 'truth':
        return as_cond(f(a.args[0]))
    r = rebuild(a, f)
    if is_cond(r):
        return r
    return atom_cond(r)


def contains(t, pred, cache=None):
    if cache is None:
        cache = {}
    r = cache.get(t)
    if r is not None:
        return r
    if pred(t):
        cache[t] = True
        return True
    cache[t] = False
    r = any(contains(x, pred, cache) for x in _iter_terms(t.args))
    cache[t] = r
    return r


def syms_of(t):
    if t._syms is None:
        s = set()
        if t.op == 'sym':
            s.add(t)
        for x in _iter_terms(t.args):
            s |= syms_of(x)
        t._syms = frozenset(s)
    return t._syms


_bvfresh = [0]


def fresh_sym(prefix='$', **info):
    _bvfresh[0] += 1
    return sym('%s%d' % (prefix, _bvfresh[0]), **info)


def close_over(syms, *terms):
    """replace fresh loop symbols by canonical bound variables (de Bruijn style levels)"""
    lvl = 0
    for t in terms:
        lvl = max(lvl, t.mbv)
    m = {}
    for i, s in enumerate(syms):
        m[s] = mk('bv', lvl + 1 + i)
    cache = {}
    return tuple(_subst(t, m, cache) for t in terms)


WHOLE_CALLS = {'numpy.' + n for n in ('max', 'min', 'sum', 'mean', 'median', 'std', 'var', 'prod', 'nanmax', 'nanmin', 'nansum', 'nanmean', 'nanstd', 'percentile', 'nanpercentile')}
SCALAR_CALLS = {'int', 'float', 'numpy.size', 'len', 'math.hypot', 'math.sqrt', 'round'} | set(p + n for p in ('abs:', '.') for n in (
    'get_highest_alt', 'get_lowest_alt', 'get_npix_x', 'get_npix_y', 'get_n_bands', 'get_nodata_val'))


def is_scalar(t):
    o = t.op
    if o in ('num', 'bv', 'pi', 'bool', 'len', 'str', 'sum1', 'si', 'inner'):
        return True
    if o == 'sym':
        return bool(SYMINFO.get(t.args[0], {}).get('scalar'))
    if o == 'poly':
        return all(is_scalar(a) for m, c in t.args[0] for a, e in m)
    if o == 'ufunc':
        return all(is_scalar(a) for a in t.args[1:] if isinstance(a, T))
    if o == 'index':
        if t.args[0].op in ('shape',):
            return all(i.op == 'num' for i in t.args[1])
        inf = None
        if t.args[0].op == 'sym':
            inf = SYMINFO.get(t.args[0].args[0], {}).get('rank')
        if inf and len(t.args[1]) == inf and all(is_scalar(i) for i in t.args[1]):
            return True
        return False
    if o == 'call':
        if t.args[0] == 'numpy.round' and t.args[1]:
            return is_scalar(t.args[1][0])
        return t.args[0] in SCALAR_CALLS or t.args[0] in WHOLE_CALLS and not t.args[1] and ([k for k, v in t.args[2]] == ['a'] or [k for k, v in t.args[2]] == ['a', 'q'] and t.args[2][1][1].op == 'num')
    if o == 'ite':
        return is_scalar(t.args[1]) and is_scalar(t.args[2])
    if o in ('pow', 'pos'):
        return all(is_scalar(a) for a in t.args)
    return False


# ---------------------------------------------------------------- printing

def show(t, d=0, lim=9):
    if d > lim:
        return '..'
    s = lambda x: show(x, d + 1, lim)
    o = t.op
    if o == 'num':
        return str(t.args[0])
    if o == 'str':
        return repr(t.args[0])
    if o == 'bool':
        return str(t.args[0])
    if o == 'none':
        return 'None'
    if o == 'sym':
        return t.args[0]
    if o == 'bv':
        return 'i%d' % t.args[0]
    if o == 'pi':
        return 'pi'
    if o == 'poly':
        out = []
        for m, c in t.args[0]:
            fs = []
            if c != 1 or not m:
                fs.append(str(c))
            for a, e in m:
                x = s(a)
                if a.op == 'poly':
                    x = '(' + x + ')'
                fs.append(x if e == 1 else '%s^%s' % (x, e))
            out.append('*'.join(fs))
        return '(' + ' + '.join(out) + ')'
    if o in ('ite', 'bdd'):
        if o == 'bdd' and t.args[1] is TRUE and t.args[2] is FALSE:
            return '[%s]' % s(t.args[0])
        return 'ite(%s, %s, %s)' % tuple(s(x) for x in t.args)
    if o == 'pos':
        return s(t.args[0]) + '>0'
    if o == 'eq':
        return s(t.args[0]) + '==' + s(t.args[1])
    if o == 'slice':
        return ':'.join('' if x is NONE else s(x) for x in t.args)
    if o == 'index':
        return '%s[%s]' % (s(t.args[0]), ', '.join(s(x) for x in t.args[1]))
    if o == 'attr':
        return '%s.%s' % (s(t.args[0]), t.args[1])
    if o == 'call':
        kw = ['%s=%s' % (k, s(v)) for k, v in (t.args[2] if len(t.args) > 2 else ())]
        f = t.args[0]
        return '%s(%s)' % (f if isinstance(f, str) else s(f), ', '.join([s(x) for x in t.args[1]] + kw))
    if o == 'ufunc':
        return '%s(%s)' % (t.args[0], ', '.join(s(x) for x in t.args[1:]))
    if o == 'tuple':
        return '(' + ', '.join(s(x) for x in t.args) + ')'

    def g(x):
        if isinstance(x, T):
            return s(x)
        if isinstance(x, tuple):
            return '(' + ', '.join(g(y) for y in x) + ')'
        return str(x)
    return '%s(%s)' % (o, ', '.join(g(x) for x in t.args))
