"""Width of pixel arithmetic: an abstract interpretation of every function over the kinds of numbers its values may hold.

Kinds:  N  numbers in the type the pixels came in (possibly 8 or 16 bits wide)
        F  floating point      W  machine-size or Python integers      O  anything else / unknown
A value is a set of kinds (one per way to reach the point).  Pixels come in through array parameters of the pixel-processing modules and
through reads of image data.  Findings:
  wrap      two values of kind N are added, subtracted, multiplied, raised or multiplied as matrices: the result is held in the pixels' own
            type, so it wraps around once it does not fit
  truncate  a value that is F only is stored in an array that has the pixels' own type, or that was made for whole numbers: the fraction (or
            the NaN) is lost
  narrow    numbers are put into 16- or 32-bit floating point although nobody asked for it: map coordinates and large pixel values lose digits"""
import ast
import re
from .resolve import own_nodes, params

N, F, W, O = 'N', 'F', 'W', 'O'
S = frozenset
sN, sF, sW, sO = S(N), S(F), S(W), S(O)
BOT = S()
SOURCES = {'read_band_from_disk', 'read_all_image_data_from_disk', 'get_image_data', 'get_image_band', 'ReadAsArray', 'imread', 'get_spectral_data', 'open_image'}
KEEP_METH = {'reshape', 'ravel', 'transpose', 'flatten', 'copy', 'squeeze', 'take', 'min', 'max', 'clip', 'round', 'swapaxes', 'repeat', 'item', 'filled', 'compress',
             'diagonal', 'ptp', 'byteswap', 'newbyteorder', '__getitem__', 'conj', 'view', 'sort'}
FLOAT_METH = {'mean', 'std', 'var'}
WIDE_METH = {'sum', 'argmin', 'argmax', 'argsort', 'cumsum', 'prod', 'tolist', 'nonzero', 'any', 'all', 'searchsorted', 'count', 'index', 'trace'}
KEEP_FN = set('''reshape ravel transpose copy squeeze take amin amax min max nanmin nanmax clip around round swapaxes rollaxis moveaxis repeat tile flip fliplr flipud rot90
 roll concatenate stack vstack hstack dstack column_stack row_stack append insert delete unique sort maximum minimum fmax fmin where pad expand_dims atleast_1d
 atleast_2d atleast_3d array asarray asanyarray ascontiguousarray asfortranarray broadcast_to masked_array ma.masked_array ma.array ma.masked_equal ma.masked_where
 zeros_like ones_like empty_like full_like diag diagonal compress extract choose select real resize split array_split abs absolute negative
 nan_to_num copy.copy copy.deepcopy triu tril partition ma.masked_invalid ma.filled median_filter meshgrid'''.split())
FLOAT_FN = set('''mean average nanmean ma.mean std var nanstd nanvar median nanmedian percentile quantile nanpercentile cov corrcoef ma.cov ma.corrcoef sqrt exp log log10
 log2 sin cos tan arcsin arccos arctan arctan2 hypot divide true_divide interp linalg.norm linalg.inv linalg.pinv linalg.eig linalg.eigh linalg.svd linalg.det
 linalg.solve trapz trapezoid deg2rad rad2deg radians degrees linspace float64 float_ double float32 fft.fft2 fft.fft isclose ma.std ma.median ma.var geomspace
 logspace cbrt expm1 log1p'''.split())
WIDE_FN = set('''sum nansum ma.sum argmin argmax argsort nanargmin nanargmax cumsum prod nonzero argwhere shape ndim size count_nonzero searchsorted digitize arange
 bincount histogram histogram2d int64 int_ any all trace ones_count indices ravel_multi_index unravel_index flatnonzero nancumsum'''.split())
ARITH_FN = {'add': '+', 'subtract': '-', 'multiply': '*', 'power': '**', 'square': '**', 'dot': '@', 'matmul': '@', 'inner': '@', 'outer': '*', 'vdot': '@', 'einsum': '@',
            'tensordot': '@', 'diff': '-', 'ptp': '-', 'convolve': '@', 'correlate': '@', 'linalg.multi_dot': '@', 'kron': '*', 'cross': '*'}
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Pow: '**', ast.MatMult: '@'}
PIXEL = re.compile('image|img|spectr|scene|band|cube|target|signature|raster|chip|data|pixel_values|endmember|background')
STATISTIC = re.compile('mean|cov|inverse|wave|fwhm|center|weight|mask|coord|shift|matrix|mtx|hist|list|loc|name|index|size')
NARROW = {'float32', 'float16', 'single', 'half', 'f4', 'f2', '<f4', '>f4', '<f2', '>f2', 'complex64', 'csingle'}
WHOLE = {'int', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'int_', 'intp', 'uint', 'byte', 'ubyte', 'short', 'ushort', 'i4', 'i8', 'i2', 'u1', 'u2', 'u4', 'u8',
         'bool', 'bool_', 'intc', 'uintp', 'longlong'}
ROUNDS = {'round', 'around', 'rint', 'floor', 'ceil', 'trunc', 'fix'}
NAME = {'+': 'added', '-': 'subtracted', '*': 'multiplied', '**': 'raised to a power', '@': 'multiplied as matrices'}
KINDS = frozenset('biufc')
KIND_NAMES = {'inexact': 'fc', 'floating': 'f', 'complexfloating': 'c', 'integer': 'iu', 'signedinteger': 'i', 'unsignedinteger': 'u', 'number': 'iufc', 'bool_': 'b', 'generic': 'biufc'}


def kinds_asked(test):
    """(array, kinds of number for which the condition holds) of a condition that asks only about the kind of one array's numbers"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        r = kinds_asked(test.operand)
        return r and (r[0], KINDS - r[1])
    if isinstance(test, ast.BoolOp):
        rs = [kinds_asked(x) for x in test.values]
        if any(r is None for r in rs) or len(set(r[0] for r in rs)) != 1:
            return None
        k = rs[0][1]
        for r in rs[1:]:
            k = (k & r[1]) if isinstance(test.op, ast.And) else (k | r[1])
        return rs[0][0], k
    if isinstance(test, ast.Call) and isinstance(test.func, ast.Attribute) and test.func.attr == 'issubdtype' and len(test.args) == 2:
        a, k = test.args
        if isinstance(a, ast.Attribute) and a.attr == 'dtype' and isinstance(k, ast.Attribute) and k.attr in KIND_NAMES:
            return ast.unparse(a.value), frozenset(KIND_NAMES[k.attr])
        return None
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        a, k = test.left, test.comparators[0]
        if isinstance(a, ast.Attribute) and a.attr == 'kind' and isinstance(a.value, ast.Attribute) and a.value.attr == 'dtype':
            if isinstance(k, ast.Constant) and isinstance(k.value, str):
                ks = frozenset(k.value)
            elif isinstance(k, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in k.elts):
                ks = frozenset(x.value for x in k.elts)
            else:
                return None
            n = ast.unparse(a.value.value)
            if isinstance(test.ops[0], (ast.In, ast.Eq)):
                return n, ks & KINDS
            if isinstance(test.ops[0], (ast.NotIn, ast.NotEq)):
                return n, KINDS - ks
    return None


def mixed(ks):
    """the branch still holds whole numbers together with floating-point ones: nothing was settled"""
    return 'f' in ks and bool(ks & frozenset('iu'))


SAFE_WORDS = ('dtype', 'issubdtype', 'isinstance', 'isrealobj', 'kind', 'can_cast', 'type')


class Width(object):
    def __init__(self, R, in_scope):
        self.R, self.in_scope = R, in_scope
        self.memo, self.stack = {}, []
        self.found = {}        # (fn.qual, line, col, what) -> (fn, node, rule, detail)
        self.attrs = {}        # (class, attr) -> kinds
        self.sites = {}        # (class, attr) -> {assignment: kinds}
        self.ops = set()
        self.funcs = set()

    # ---- driver
    def run(self):
        fns, seen = [], set()
        for f in self.R.fn_list:
            if (f.qual, f.node.lineno) not in seen:
                seen.add((f.qual, f.node.lineno))
                fns.append(f)
        for rnd in range(3):
            old = dict(self.attrs)
            self.memo = {}
            self.found = {}
            for f in fns:
                if f.parent is None:
                    self.call(f, self.entry(f), top=True)
            if old == self.attrs:
                break
        return self

    def entry(self, f):
        d = {}
        doc = self.annotated(f)
        scope = self.in_scope(f)
        for p in params(f.node):
            d[p] = sO if not scope or p not in doc or not PIXEL.search(p) else sF if STATISTIC.search(p) else sN
        return d

    def annotated(self, f):
        """parameters documented as arrays, and undocumented ones used as arrays"""
        lines = self.R.mods[f.mod.name].src.split('\n') if hasattr(self.R.mods.get(getattr(f.mod, 'name', None)), 'src') else None
        r = set()
        a = f.node.args
        for x in getattr(a, 'posonlyargs', []) + a.args + a.kwonlyargs:
            t = ''
            if x.annotation is not None:
                t = ast.unparse(x.annotation)
            elif lines is not None and x.lineno <= len(lines):
                m = re.search(r'#\s*type:\s*(.*)', lines[x.lineno - 1])
                t = m.group(1) if m else ''
            if 'ndarray' in t or t.strip() == 'array':
                r.add(x.arg)
            elif not t:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == x.arg and n.attr in ('shape', 'ravel', 'reshape', 'ndim', 'dtype', 'astype', 'flatten'):
                        r.add(x.arg)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'numpy') \
                            and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == x.arg and n.func.attr in ('min', 'max', 'shape', 'mean', 'ravel', 'reshape'):
                        r.add(x.arg)
        return r

    def call(self, f, kinds, top=False):
        key = (f.qual, f.node.lineno, tuple(sorted((k, v) for k, v in kinds.items())))
        key = (f.qual, f.node.lineno, tuple(sorted((k, tuple(sorted(v))) for k, v in kinds.items())))
        if key in self.memo:
            return self.memo[key]
        if len(self.stack) > 12 or key in self.stack:
            return sO
        self.stack.append(key)
        self.memo[key] = sO
        self.funcs.add(f.qual)
        fr = Frame(self, f, dict(kinds))
        fr.block(f.node.body)
        r = fr.ret or sO
        self.memo[key] = r
        self.stack.pop()
        return r

    def note(self, f, node, rule, what, detail):
        self.found.setdefault((f.qual, node.lineno, node.col_offset, rule), (f, node, rule, what, detail))


class Frame(object):
    def __init__(self, A, f, env):
        self.A, self.f, self.env = A, f, env
        self.ret = BOT
        self.local = {}
        self.asked = {}        # name of a condition -> names whose type it asks about
        self.ns = A.R.ns_of(f)
        self.types = A.R.types_in(f)
        self.dead = False
        self.whole = set()     # names of arrays made here to hold whole numbers

    # ---- statements
    def block(self, body):
        for s in body:
            if self.dead:
                return
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, ast.Return):
            self.ret |= self.ev(s.value) if s.value is not None else sO
            self.dead = True
        elif isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
            self.dead = isinstance(s, ast.Raise) or self.dead
            if isinstance(s, ast.Raise) and s.exc is not None:
                self.ev(s.exc)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            a, b = self.ev(s.target), self.ev(s.value)
            r = self.arith(s, OPS.get(type(s.op)), a, b, s.target, s.value)
            if a == sN and b == sF and not isinstance(s.op, (ast.BitAnd, ast.BitOr)):
                self.A.note(self.f, s, 'truncate', ast.unparse(s.target), 'a floating-point value is folded into %s, which has the type of the pixels' % ast.unparse(s.target))
            if isinstance(s.target, ast.Name):
                self.env[s.target.id] = r
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            guard = self.type_guarded(s.test)
            e0 = dict(self.env)
            asked = kinds_asked(s.test)
            for n in guard:
                if not (asked and asked[0] == n and mixed(asked[1])):
                    self.env[n] = sO
            self.block(s.body)
            e1, d1 = self.env, self.dead
            self.env, self.dead = dict(e0), False
            for n in guard:
                if not (asked and asked[0] == n and mixed(KINDS - asked[1])):
                    self.env[n] = sO
            self.block(s.orelse)
            e2, d2 = self.env, self.dead
            self.dead = d1 and d2
            self.env = e2 if d1 else e1 if d2 else self.join(e1, e2)
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            for k in range(2):
                e0 = dict(self.env)
                if isinstance(s, ast.While):
                    self.ev(s.test)
                else:
                    self.assign(s.target, self.elem_of(s.iter), None)
                self.block(s.body)
                self.dead = False
                self.env = self.join(e0, self.env)
            self.block(s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, None)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            e0 = dict(self.env)
            self.block(s.body)
            e1, d1 = self.env, self.dead
            outs = [] if d1 else [e1]
            for h in s.handlers:
                self.env, self.dead = self.join(e0, e1), False
                if h.name:
                    self.env[h.name] = sO
                self.block(h.body)
                if not self.dead:
                    outs.append(self.env)
            self.dead = not outs
            if outs:
                e = outs[0]
                for x in outs[1:]:
                    e = self.join(e, x)
                self.env = e
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, (ast.FunctionDef,)):
            for g in self.A.R.fn_list:
                if g.node is s:
                    self.local[s.name] = g
        elif isinstance(s, ast.Delete):
            pass

    def type_guarded(self, test):
        """names whose type the condition asks about"""
        r = set()
        for n in ast.walk(test):
            if isinstance(n, ast.Attribute) and n.attr in ('dtype', 'kind', 'itemsize'):
                for x in ast.walk(n):
                    if isinstance(x, ast.Name):
                        r.add(x.id)
            elif isinstance(n, ast.Call):
                k = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
                if k in ('issubdtype', 'isinstance', 'type', 'isrealobj', 'iscomplexobj', 'can_cast', 'result_type', 'issubclass'):
                    for x in ast.walk(n):
                        if isinstance(x, ast.Name):
                            r.add(x.id)
        out = set(r)
        for n in ast.walk(test):
            if isinstance(n, ast.Name):
                out |= self.asked.get(n.id, set())
            elif isinstance(n, ast.Call) and self.asks_type(n):
                out |= set(k for k, v in self.env.items() if N in v) | set(ast.unparse(x) for x in ast.walk(self.f.node) if isinstance(x, ast.Attribute))
        # attributes of self asked about
        for n in ast.walk(test):
            if isinstance(n, ast.Attribute) and n.attr in ('dtype',) and isinstance(n.value, ast.Attribute):
                out.add(ast.unparse(n.value))
        return out

    def asks_type(self, call):
        """a call of a library function that looks at the type of some array"""
        fn = call.func
        g = None
        if isinstance(fn, ast.Name) and fn.id in self.local:
            g = self.local[fn.id]
        else:
            b = self.A.R.resolve(fn, self.ns)
            if b is not None and b.kind in ('func', 'method'):
                g = b.val
            elif isinstance(fn, ast.Attribute):
                t = self.A.R.type_of(fn.value, self.f, self.types)
                c = t[1] if isinstance(t, tuple) else t
                if c is not None and hasattr(c, 'method'):
                    g = c.method(fn.attr)[0]
        return g is not None and any(isinstance(x, ast.Attribute) and x.attr in ('dtype', 'issubdtype') for x in ast.walk(g.node))

    def join(self, a, b):
        return dict((k, a.get(k, BOT) | b.get(k, BOT)) for k in set(a) | set(b))

    def assign(self, t, v, value):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
            self.asked.pop(t.id, None)
            self.whole.discard(t.id)
            if value is not None and self.makes_whole(value):
                self.whole.add(t.id)
            if value is not None:
                g = self.type_guarded(value)
                if g:
                    self.asked[t.id] = g
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                vs = [self.ev(x) for x in value.elts]
                for x, y, z in zip(t.elts, vs, value.elts):
                    self.assign(x, y, z)
            else:
                if isinstance(value, ast.Attribute) and value.attr == 'shape':
                    v = sW
                for x in t.elts:
                    self.assign(x, v, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, None)
        elif isinstance(t, ast.Attribute):
            self.env[ast.unparse(t)] = v
            c = self.owner(t)
            if c is not None and not (isinstance(value, ast.Constant) and value.value is None):
                k = (c.qual, t.attr)
                self.A.attrs[k] = self.A.attrs.get(k, BOT) | v
                d = self.A.sites.setdefault(k, {})
                d[(self.f.qual, t.lineno)] = d.get((self.f.qual, t.lineno), BOT) | v
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice)
            a = self.ev(t.value)
            if N in a and O not in a and v == sF:
                self.A.note(self.f, t, 'truncate', ast.unparse(t.value), 'a floating-point value is stored in %s, which has the type of the pixels' % ast.unparse(t.value))
            elif isinstance(t.value, ast.Name) and t.value.id in self.whole and v == sF and not self.rounds():
                self.A.note(self.f, t, 'truncate', t.value.id, 'a floating-point value is stored in %s, which was made for whole numbers' % t.value.id)
            elif isinstance(t.value, ast.Name):
                if a == sO or not a:
                    self.env[t.value.id] = a
        return

    def owner(self, t):
        if isinstance(t.value, ast.Name) and self.f.cls is not None:
            x = self.types.get(t.value.id)
            if x is self.f.cls:
                return x
        return None

    # ---- expressions
    def elem_of(self, it):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range':
            self.ev(it)
            return sW
        return self.ev(it)

    def ev(self, e):
        if e is None:
            return sO
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is not None:
            return m(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c)
        return sO

    def ev_Constant(self, e):
        if isinstance(e.value, bool):
            return sO
        if isinstance(e.value, int):
            return sW
        if isinstance(e.value, float):
            return sF
        return sO

    def ev_Name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        p = self.f.parent
        return sO

    def ev_Attribute(self, e):
        s = ast.unparse(e)
        if s in self.env:
            return self.env[s]
        if e.attr in ('shape', 'size', 'ndim', 'nbytes'):
            self.ev(e.value)
            return sW
        if e.attr in ('T', 'real', 'flat', 'data'):
            return self.ev(e.value)
        if s in ('np.nan', 'numpy.nan', 'np.NaN', 'np.pi', 'numpy.pi', 'math.pi', 'np.inf', 'numpy.inf', 'math.nan'):
            return sF
        self.ev(e.value)
        c = self.owner(e)
        if c is not None:
            r = BOT
            for k in c.mro():
                r |= self.A.attrs.get((k.qual, e.attr), BOT)
                if N in r and any(N not in v for v in self.A.sites.get((k.qual, e.attr), {}).values()):
                    return sO           # converted somewhere: what it holds now is a matter of state
            return r or sO
        return sO

    def ev_Subscript(self, e):
        self.ev(e.slice)
        s = ast.unparse(e)
        return self.ev(e.value)

    def ev_Tuple(self, e):
        r = BOT
        for x in e.elts:
            r |= self.ev(x.value if isinstance(x, ast.Starred) else x)
        return r or S((W,)) if False else (r or BOT)

    ev_List = ev_Set = ev_Tuple

    def comp(self, e, *parts):
        old = dict(self.env)
        for g in e.generators:
            self.assign(g.target, self.elem_of(g.iter), None)
            for c in g.ifs:
                self.ev(c)
        r = BOT
        for p in parts:
            r |= self.ev(p)
        self.env = old
        return r

    def ev_ListComp(self, e):
        return self.comp(e, e.elt)

    ev_GeneratorExp = ev_SetComp = ev_ListComp

    def ev_DictComp(self, e):
        return self.comp(e, e.value)

    def ev_IfExp(self, e):
        self.ev(e.test)
        g = self.type_guarded(e.test)
        if g:
            old = dict(self.env)
            asked = kinds_asked(e.test)
            r = BOT
            for branch, ks in ((e.body, lambda k: k), (e.orelse, lambda k: KINDS - k)):
                self.env = dict(old)
                for n in g:
                    if not (asked and asked[0] == n and mixed(ks(asked[1]))):
                        self.env[n] = sO
                r |= self.ev(branch)
            self.env = old
            return r
        return self.ev(e.body) | self.ev(e.orelse)

    def ev_BoolOp(self, e):
        r = BOT
        for v in e.values:
            r |= self.ev(v)
        return r

    def ev_Compare(self, e):
        self.ev(e.left)
        for c in e.comparators:
            self.ev(c)
        return S('O')

    def ev_UnaryOp(self, e):
        v = self.ev(e.operand)
        return sO if isinstance(e.op, ast.Not) else v

    def ev_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        op = OPS.get(type(e.op))
        if isinstance(e.op, ast.Div):
            return sF if (a | b) <= {N, F, W} and a and b else sO
        if op is None:
            return self.promote(a, b)
        return self.arith(e, op, a, b, e.left, e.right)

    def promote(self, a, b):
        r = set()
        for x in a or {O}:
            for y in b or {O}:
                r.add(O if O in (x, y) else F if F in (x, y) else N if N in (x, y) else W)
        return S(r)

    def arith(self, e, op, a, b, x, y):
        if op is None:
            return self.promote(a, b)
        self.A.ops.add((self.f.qual, e.lineno, e.col_offset))
        if isinstance(x, (ast.List, ast.Tuple)) or isinstance(y, (ast.List, ast.Tuple)) or isinstance(x, ast.ListComp) or isinstance(y, ast.ListComp):
            return a | b
        wrap = N in a and N in b and not (F in a and F in b)
        if op in ('*', '**') and N in a and a <= {N, W} and isinstance(y, ast.Constant) and type(y.value) is int and y.value >= 2:
            wrap = True
        if op == '*' and N in b and b <= {N, W} and isinstance(x, ast.Constant) and type(x.value) is int and x.value >= 2:
            wrap = True
        if wrap:
            self.A.note(self.f, e, 'wrap', ast.unparse(e), 'pixels are %s in their own type, which wraps around' % NAME[op])
        return self.promote(a, b)

    def type_name(self, d):
        """plain name of a type written out in the source"""
        if isinstance(d, ast.Constant) and isinstance(d.value, str):
            return d.value
        if isinstance(d, ast.Call) and len(d.args) == 1 and isinstance(d.func, (ast.Attribute, ast.Name)) and ast.unparse(d.func).split('.')[-1] == 'dtype':
            return self.type_name(d.args[0])
        if isinstance(d, ast.Name) and d.id in ('int', 'float', 'bool', 'complex') and d.id not in self.env:
            return d.id
        b = self.A.R.resolve(d, self.ns) if isinstance(d, (ast.Attribute, ast.Name)) else None
        return b.val.split('.')[-1] if b is not None and b.kind == 'ext' and b.val.startswith('numpy.') else None

    def narrowed(self, e, d):
        if d is not None and self.type_name(d) in NARROW and not self.f.qual.startswith('resippy.image_recognition.'):
            self.A.note(self.f, e, 'narrow', ast.unparse(e.func), 'numbers are put into %s here, which nobody asked for: digits of coordinates and values are lost' % self.type_name(d))

    def makes_whole(self, e):
        """the expression makes an array for whole numbers"""
        if not isinstance(e, ast.Call):
            return False
        b = self.A.R.resolve(e.func, self.ns)
        n = b.val.split('.')[-1] if b is not None and b.kind == 'ext' and b.val.startswith('numpy.') else None
        d = next((k.value for k in e.keywords if k.arg == 'dtype'), None)
        if n in ('zeros', 'ones', 'empty') and d is None and len(e.args) > 1:
            d = e.args[1]
        return n in ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like') and d is not None and self.type_name(d) in WHOLE

    def rounds(self):
        return any(isinstance(n, ast.BinOp) and isinstance(n.op, ast.FloorDiv) or isinstance(n, ast.Call) and ast.unparse(n.func).split('.')[-1] in ROUNDS for n in ast.walk(self.f.node))

    def dtype_kind(self, d):
        """kind that an explicit type gives; None when the type is that of the pixels"""
        s = ast.unparse(d)
        if s in ('float', 'np.float64', 'numpy.float64', 'np.double', 'np.float32', 'numpy.float32', "'float64'", "'float'", "'float32'", 'np.complex128', 'complex', "'f8'", "'d'",
                 'np.float_', "'f4'", 'np.floating', 'np.longdouble'):
            return sF
        if s in ('int', 'np.int64', 'numpy.int64', "'int64'", "'int'", 'np.int_'):
            return sW
        if isinstance(d, ast.Attribute) and d.attr == 'dtype':
            v = self.ev(d.value)
            return v
        return sO

    def ev_Call(self, e):
        fn = e.func
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a) for a in e.args]
        kws = dict((k.arg, self.ev(k.value)) for k in e.keywords)
        kwn = dict((k.arg, k.value) for k in e.keywords)
        star = any(isinstance(a, ast.Starred) for a in e.args) or None in kws
        if isinstance(fn, ast.Name):
            if fn.id in self.local:
                return self.enter(self.local[fn.id], e, args, kws, star, None)
            if fn.id == 'float':
                return sF
            if fn.id in ('int', 'len', 'round', 'ord', 'hash', 'range', 'bool', 'str', 'repr', 'isinstance', 'type', 'print'):
                return sW if fn.id in ('int', 'len', 'range') else sO
            if fn.id in ('max', 'min', 'abs', 'sorted', 'list', 'tuple', 'reversed', 'set', 'iter', 'next', 'zip', 'map', 'filter', 'sum'):
                r = BOT
                for a in args:
                    r |= a
                if fn.id == 'sum' and len(args) == 1 and args[0] == sN:
                    return self.arith(e, '+', sN, sN, e.args[0], None)
                return sO if fn.id in ('map', 'filter') else r or sO
            if fn.id == 'enumerate':
                return (args[0] if args else BOT) | sO
        b = self.A.R.resolve(fn, self.ns)
        if b is not None and b.kind in ('func', 'method'):
            return self.enter(b.val, e, args, kws, star, b)
        if b is not None and b.kind == 'class':
            init, k = b.val.method('__init__')
            if init is not None:
                self.enter(init, e, [sO] + args, kws, star, None)
            return sO
        if b is not None and b.kind == 'ext':
            return self.external(b.val, e, args, kws, kwn)
        if isinstance(fn, ast.Attribute):
            if fn.attr in SOURCES:
                self.ev(fn.value)
                return sN
            t = self.A.R.type_of(fn.value, self.f, self.types)
            c = t[1] if isinstance(t, tuple) else t
            if c is not None and hasattr(c, 'method'):
                g, k = c.method(fn.attr)
                if g is not None:
                    if g.static or (isinstance(t, tuple) and not g.classm):
                        return self.enter(g, e, args, kws, star, None)
                    return self.enter(g, e, [sO] + args, kws, star, None)
            v = self.ev(fn.value)
            return self.method(fn.attr, v, e, args, kws, kwn)
        self.ev(fn)
        return sO

    def enter(self, g, e, args, kws, star, b):
        if b is not None and b.kind == 'method' and (g.classm or (not g.static and b.extra is None)):
            args = [sO] + args
        elif b is not None and b.kind == 'method' and g.classm:
            args = [sO] + args
        names = params(g.node)
        d = dict((n, BOT) for n in names)
        a = g.node.args
        pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
        if star:
            for n in names:
                d[n] = sO
        for n, v in zip(pos, args):
            d[n] = v
        for k, v in kws.items():
            if k in d:
                d[k] = v
        ds = a.defaults
        for n, v in zip(pos[len(pos) - len(ds):], ds):
            if not d.get(n):
                d[n] = self.ev(v) if isinstance(v, ast.Constant) else sO
        for n, v in zip(a.kwonlyargs, a.kw_defaults):
            if not d.get(n.arg):
                d[n.arg] = self.ev(v) if isinstance(v, ast.Constant) else sO
        for n in names:
            if not d[n]:
                d[n] = sO
        if g.parent is not None and g.parent is self.f:
            for k, v in self.env.items():
                d.setdefault(k, v)
        return self.A.call(g, d)

    def reduced(self, e, v, d):
        """a fold over v accumulated in the type d"""
        k = self.dtype_kind(d)
        if N in v and N in k and (v | k) <= {N, W}:
            return self.arith(e, '+', k, k, e.func, None)
        return k

    def method(self, name, v, e, args, kws, kwn):
        if name == 'astype' and (e.args or 'dtype' in kwn):
            self.narrowed(e, e.args[0] if e.args else kwn['dtype'])
            d = e.args[0] if e.args else kwn['dtype']
            if isinstance(e.func.value, ast.Name) and e.func.value.id in self.whole and isinstance(d, ast.Name) and d.id in params(self.f.node):
                self.A.note(self.f, e, 'truncate', e.func.value.id, 'the values are converted to the type asked for from %s, which was made for whole numbers' % e.func.value.id)
        elif 'dtype' in kwn:
            self.narrowed(e, kwn['dtype'])
        if name == 'astype' and e.args:
            return self.dtype_kind(e.args[0])
        if name in FLOAT_METH | WIDE_METH and 'dtype' in kwn:
            return self.reduced(e, v, kwn['dtype'])
        if name in FLOAT_METH:
            return sF
        if name in WIDE_METH:
            return sW if v <= {N, W} else v
        if name == 'dot' and args:
            return self.arith(e, '@', v, args[0], e.func.value, e.args[0])
        if name in KEEP_METH:
            if name == 'ptp':
                return self.arith(e, '-', v, v, e.func.value, e.func.value)
            return v
        if name in ('append', 'extend', 'insert') and isinstance(e.func.value, ast.Name):
            n = e.func.value.id
            if n in self.env and args:
                self.env[n] = self.env[n] | args[-1]
            return sO
        if name in SOURCES:
            return sN
        return sO

    def external(self, q, e, args, kws, kwn):
        n = q
        for p in ('numpy.', 'scipy.', 'np.'):
            if n.startswith(p):
                n = n[len(p):]
        if q.startswith(('numpy.', 'copy.', 'math.', 'scipy.', 'imageio')):
            d = kwn.get('dtype')
            out = kwn.get('out')
            if q.startswith('numpy.'):
                self.narrowed(e, d if d is not None else e.args[1] if n in ('zeros', 'ones', 'empty', 'array', 'asarray', 'asanyarray') and len(e.args) > 1 else None)
                if n in NARROW and args and not self.f.qual.startswith('resippy.image_recognition.'):
                    self.A.note(self.f, e, 'narrow', ast.unparse(e.func), 'numbers are put into %s here, which nobody asked for: digits of coordinates and values are lost' % n)
            if n in ('zeros', 'ones', 'empty', 'full', 'eye', 'identity'):
                if d is None and len(e.args) > 1 and n in ('zeros', 'ones', 'empty'):
                    d = e.args[1]
                if d is None:
                    return sF if n != 'full' else (args[1] if len(args) > 1 else sO)
                return self.dtype_kind(d)
            if d is not None and n in FLOAT_FN | WIDE_FN and args:
                return self.reduced(e, args[0], d)
            if d is not None and n in KEEP_FN:
                return self.dtype_kind(d)
            if n in ('array', 'asarray') and len(e.args) > 1:
                return self.dtype_kind(e.args[1])
            if n in ARITH_FN:
                if d is not None:
                    return self.dtype_kind(d)
                if n == 'square':
                    return self.arith(e, '**', args[0] if args else sO, args[0] if args else sO, e.args[0] if e.args else None, None)
                if n in ('diff', 'ptp') and args:
                    return self.arith(e, '-', args[0], args[0], e.args[0], e.args[0])
                xs = args[1:] if n == 'einsum' else args
                if len(xs) >= 2:
                    ns = e.args[1:] if n == 'einsum' else e.args
                    return self.arith(e, ARITH_FN[n], xs[0], xs[1], ns[0], ns[1])
                return sO
            if n == 'ma.masked_array' or n == 'where' and len(args) == 3:
                xs = args[1:] if n == 'where' else args[:1]
                r = BOT
                for x in xs:
                    r |= x
                if n == 'where':
                    return self.promote(args[1], args[2])
                return r
            if n in KEEP_FN:
                xs = args if n in ('maximum', 'minimum', 'concatenate', 'append', 'meshgrid') else args[:1]
                r = BOT
                for x in xs:
                    r |= x
                return r or sO
            if n in FLOAT_FN:
                return sF
            if n in WIDE_FN:
                return sW if all(a <= {N, W} for a in args[:1]) else (args[0] if args else sO)
            if q.startswith('math.'):
                return sF
            if n == 'imread' or n.endswith('.imread'):
                return sN
        if q.split('.')[-1] in SOURCES:
            return sN
        return sO


PIXELS = ('resippy.spectral.', 'resippy.utils.image_utils.', 'resippy.utils.spectral_utils', 'resippy.image_recognition.')


def findings(R):
    A = Width(R, lambda f: f.qual.startswith(PIXELS)).run()
    return A
