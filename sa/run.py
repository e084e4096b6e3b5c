"""Obligations: a `code` function (drives /repo) and a `spec` function (states what it must
compute), both given meaning by the abstract interpreter over the same symbolic inputs."""
import ast
import os
import sys
import time
from .terms import *
from .structs import *
from .loader import Program, AnchorMissing, ClassInfo
from .interp import joined_writes, Interp, FuncV, Unsupported, Ref, Ctx, restrict_facts, facts_of
from . import interp as _i
from .equal import Eq, Result, is_any

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def load(repo=REPO):
    P = Program([('resippy', os.path.join(repo, 'resippy')), ('specs', os.path.join(VERIF, 'specs'))])
    return P


class Outcome(object):
    pass


class Runner(object):
    def __init__(self, P=None):
        self.P = P or load()
        self.I = Interp(self.P)
        self.I.field_types = dict(FIELD_TYPES)
        self.made = {}

    # -- symbolic inputs from the annotations of the spec function
    def make_arg(self, name, ann, st):
        I = self.I
        if ann is None:
            return I.alloc(st, ('arr', sym(name, nonnull=True)))
        src = ast.unparse(ann)
        env = {
            'Scalar': ('scalar',), 'Any': ('any',), 'Opt': ('opt',), 'OptScalar': ('optscalar',), 'Str': ('str',), 'Bool': ('bool',),
            'Arr': lambda r, *d: ('arr', r) + d, 'Obj': lambda c: ('obj', c), 'Const': lambda v: ('const', v),
            'Vec': lambda n: ('vec', n), 'Mat': lambda r, c: ('mat', r, c), 'ListOf': lambda n, k='scalar': ('listof', n, k),
            'StrList': ('arr1',), 'OptArr': lambda r: ('optarr', r), 'OptSym': ('optsym',), 'Sym': ('symm',), 'Val': ('nonnull',), 'ObjVec': None,
        }
        d = eval(src, {'__builtins__': {}}, env)
        k = d[0]
        if k == 'scalar':
            return sym(name, scalar=True, nonnull=True)
        if k == 'optscalar':
            return sym(name, scalar=True)
        if k == 'any' or k == 'opt':
            return I.alloc(st, ('arr', sym(name)))
        if k == 'nonnull':
            return I.alloc(st, ('arr', sym(name, nonnull=True)))
        if k == 'str':
            return sym(name, nonnull=True, isstr=True)
        if k == 'bool':
            return sym(name, nonnull=True, isbool=True)
        if k == 'arr':
            t = sym(name, nonnull=True, rank=d[1])
            if len(d) > 2:
                # Arr(1, 'x.0'): as long as x is tall
                dims = tuple(index(shape(self.made[z.split('.')[0]]), num(int(z.split('.')[1]))) if z else index(shape(t), num(j)) for j, z in enumerate(d[2:]))
                t = sym(name, nonnull=True, rank=d[1], dims=dims)
            self.made[name] = t
            return I.alloc(st, ('arr', t))
        if k == 'arr1' and 'StrList' in src:
            return I.alloc(st, ('arr', sym(name, nonnull=True, rank=1, elnonnull=True)))
        if k == 'arr1':
            return I.alloc(st, ('arr', sym(name, nonnull=True, rank=1)))
        if k == 'optarr':
            return I.alloc(st, ('arr', sym(name, rank=d[1])))
        if k == 'optsym':
            return I.alloc(st, ('arr', sym(name, rank=2, symmetric=True)))
        if k == 'symm':
            return I.alloc(st, ('arr', sym(name, nonnull=True, rank=2, symmetric=True)))
        if k == 'obj':
            return I.sym_obj(d[1], sym(name, nonnull=True), st)
        if k == 'const':
            return const(d[1])
        if k == 'vec':
            return I.alloc(st, ('arr', arr((d[1],), [sym('%s%d' % (name, i), scalar=True, nonnull=True) for i in range(d[1])])))
        if k == 'mat':
            return I.alloc(st, ('arr', arr((d[1], d[2]), [sym('%s_%d%d' % (name, i, j), scalar=True, nonnull=True) for i in range(d[1]) for j in range(d[2])])))
        if k == 'listof':
            if d[2] == 'scalar':
                el = [sym('%s%d' % (name, i), scalar=True, nonnull=True) for i in range(d[1])]
            elif isinstance(d[2], int):
                el = [I.alloc(st, ('arr', sym('%s%d' % (name, i), nonnull=True, rank=d[2]))) for i in range(d[1])]
            else:
                el = [I.sym_obj(d[2], sym('%s%d' % (name, i), nonnull=True), st) for i in range(d[1])]
            return I.alloc(st, ('list', tuple(el)))
        raise ValueError(src)

    def run(self, f, consts=None, anns=None):
        """abstractly evaluate function value f on symbolic inputs -> Outcome"""
        annmap = dict((a.arg, a.annotation) for a in (anns or f).node.args.args)
        I = self.I
        st = I.new_state()
        args = []
        names = []
        defaults = f.node.args.defaults
        anns = f.node.args.args
        off = len(anns) - len(defaults)
        for k, a in enumerate(anns):
            if consts and a.arg in consts:
                v = consts[a.arg]
                v = const(v)
            elif k >= off:
                v = f.defaults[k - off]
            else:
                v = self.make_arg(a.arg, annmap.get(a.arg, a.annotation), st)
            args.append(v)
            names.append(a.arg)
        I.top_raises = []
        ctx = Ctx(I, f.module, I.newfid(), None, None)
        st.frames[ctx.fid] = {}
        I.unknown = set()
        pre = dict((n, I.term(v, st)) for n, v in zip(names, args))
        s = st.fork()
        v = I.call_func(f, list(args), {}, s, ctx)
        o = Outcome()
        o.pre = pre
        exits = []
        if not s.dead:
            exits.append((s.guard, s, I.term(v, s)))
        for g, rs, exc in ctx.raises:
            exits.append((g, rs, exc))
        o.value = self.tree([(g, t) for g, _, t in exits])
        o.args = {}
        for n, a in zip(names, args):
            if isinstance(a, Ref):
                o.args[n] = self.tree([(g, self.arg_term(a, s2)) for g, s2, t in exits if t.op != 'raise']) if exits else pre[n]
        effs = []
        seen = set()
        for g, s2, t in exits:
            for e in s2.effects:
                if id(e) not in seen:
                    seen.add(id(e))
                    effs.append(e)
        o.effects = effs
        o.raises = [e for _, _, e in ctx.raises]
        o.unknown = set(I.unknown)
        return o

    def arg_term(self, a, s):
        t = self.I.term(a, s)
        return strip_lazy(t)

    def tree(self, exits):
        if not exits:
            return mk('raise', 'diverges')
        gs = [facts_of(g) for g, _ in exits]
        common = [x for x in gs[0] if all(x in y for y in gs[1:])]
        t = exits[-1][1]
        for g, v in reversed(exits[:-1]):
            t = ite(restrict_facts(g, common), v, t)
        return t


def strip_lazy(t):
    """a symbolic object whose only 'changes' are lazily read fields is the object itself"""
    if t.op == 'obj' and t.args[1] is not NONE:
        base = t.args[1]
        fs = tuple((k, strip_lazy(v)) for k, v in t.args[2])
        fs = tuple((k, v) for k, v in fs if v is not mk('attr', base, k))
        if not fs:
            return base
        return mk('obj', t.args[0], base, fs)
    return t


def norm_effects(effs, pred):
    """multiset of (guard, effect) that satisfy pred, guards joined per effect"""
    d = {}
    order = []
    for g, e in joined_writes([x for x in effs if pred(x[1])]):
        if e in d:
            d[e] = b_or(d[e], g)
        else:
            d[e] = g
            order.append(e)
    return [(d[e], e) for e in order]


FIELD_TYPES = {}


class Report(object):
    def __init__(self):
        self.violations = []
        self.undecided = []
        self.ok = []


def eff_name(e):
    if e.op == 'foreach':
        return eff_name(e.args[2])
    if e.op == 'call':
        return e.args[0] if isinstance(e.args[0], str) else 'dyn'
    return e.op


def instance(body, bv, plain):
    """is the statement the loop's with its counter at a number written out"""
    if body is plain:
        return True
    if contains(body, lambda t: t is bv):
        if isinstance(plain, T) and plain.op == 'num' and body.op in ('bv', 'poly'):
            return True
        if isinstance(plain, T) and plain.op == body.op and len(plain.args) == len(body.args):
            for x, y in zip(body.args, plain.args):
                if isinstance(x, T) and isinstance(y, T):
                    if not instance(x, bv, y):
                        return False
                elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(isinstance(q, T) for q in x + y):
                    if not all(instance(p, bv, q) for p, q in zip(x, y)):
                        return False
                elif x != y:
                    return False
            return True
    return False


def one_of_many(a, b):
    """one side does in one statement, once, what the other does for each of a number of things"""
    for x, y in ((a, b), (b, a)):
        if len(x) == len(y) == 1 and x[0].op == 'call' and y[0].op == 'foreach' and y[0].args[0].op != 'num':
            n, g, body, bv = y[0].args
            if contains(body, lambda t: t is bv) and instance(body, bv, x[0]):
                return True
    return False


def compare_outcomes(oc, os_, opts):
    res = Result()
    eq = Eq(loose_exc=not opts.get('strict_exc'))
    eq.dtypes = bool(opts.get('dtypes'))
    if opts.get('value', True):
        eq.top(oc.value, os_.value, res, 'result')
    if opts.get('args', True):
        for n in os_.args:
            if n in oc.args:
                eq.top(strip_lazy(oc.args[n]), strip_lazy(os_.args[n]), res, 'argument %s after the call' % n)
    eq.roots = None
    ef = opts.get('effects')
    if ef:
        import re
        rx = re.compile(ef)
        pred = lambda e: bool(rx.search(eff_name(e)))
        ec, es = norm_effects(oc.effects, pred), norm_effects(os_.effects, pred)
        left = list(es)
        # as many statements each executed once on one side, a loop of them on the other
        loops = [set(eff_name(e) for g, e in xs if e.op == 'foreach') for xs in (ec, es)]
        loops = (loops[0] ^ loops[1]) & set(eff_name(e) for g, e in ec) & set(eff_name(e) for g, e in es)
        for nm in sorted(loops):
            if one_of_many([e for g, e in ec if eff_name(e) == nm], [e for g, e in es if eff_name(e) == nm]):
                loops.discard(nm)
        vague = lambda e: e is not None and eff_name(e) in loops
        for g, e in ec:
            hit = None
            for k, (g2, e2) in enumerate(left):
                if eq.same(e, e2) and (g is g2 or eq.same(g, g2)):
                    hit = k
                    break
            if hit is None:
                for k, (g2, e2) in enumerate(left):
                    if eff_name(e) == eff_name(e2) and (g is g2 or eq.same(g, g2)) and eq.alike(e, e2) is not False:
                        hit = k
                        break
            if hit is None:
                # closest by name
                cand = [(g2, e2) for g2, e2 in left if eff_name(e2) == eff_name(e)]
                if cand and eq.same(e, cand[0][1]):
                    res.diffs.append(('condition of effect %s' % eff_name(e), g, cand[0][0], ()))
                    left.remove(cand[0])
                elif cand:
                    x, y = eq.narrow(e, cand[0][1])
                    hazy = vague(e) or contains(e, lambda t: t.op == 'top') or eq.formulation(e, cand[0][1], x, y)
                    (res.undecided if hazy else res.diffs).append(('effect %s' % eff_name(e), x, y, ()))
                    left.remove(cand[0])
                else:
                    (res.undecided if vague(e) else res.diffs).append(('unexpected effect', e, NONE, ()))
            else:
                left.pop(hit)
                res.leaves += 1
        for g, e in left:
            (res.undecided if vague(e) else res.diffs).append(('missing effect', NONE, e, ()))
    return res
