"""Development tests of the analyser itself (never a check): mutants of the analysed functions must be
reported, behaviour-preserving rewrites of them must not.
usage: devtest.py mutants|refactor PNN ... [-n MAX] [-v]"""
import ast
import copy
import os
import random
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from multiprocessing import Process, Queue
from sa import check, run, lints
from tools import refactor2
from sa.loader import ModuleInfo, AnchorMissing


def verdict(pid, override, only=None):
    """(status, [details]) of the property on the program with some modules replaced"""
    P = run.load()
    for name, src in override.items():
        P.modules[name] = ModuleInfo(name, P.modules[name].path, src)
    bad, und = [], []
    try:
        for m, name, _, _ in check.pairs(P, pid):
            if only and name not in only:
                continue
            o = check.decide(P, m, name, check.opts_of(m).get(name, {}))
            if o.status == 'violated':
                bad.append(o.name + ' ' + o.diffs[0][0])
            elif o.status == 'undecided':
                und.append(o.name + ' ' + o.detail[:150])
        for L in lints.run_for(pid, P):
            if L.findings:
                bad.append(L.name + ': ' + L.findings[0][1][:150])
            if L.instances < L.minimum:
                und.append('few instances ' + L.name)
    except AnchorMissing as e:
        return 'broken', [str(e)]
    return ('violated', bad) if bad else ('undecided', und) if und else ('ok', [])


def forked(f, args, timeout=120):
    q = Queue()

    def w():
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            q.put(f(*args))
        except BaseException as e:
            q.put(('crash', [repr(e)]))
    p = Process(target=w)
    p.start()
    try:
        r = q.get(timeout=timeout)
    except Exception:
        r = ('timeout', [])
    p.terminate()
    p.join()
    return r


def traced(pid):
    """functions of /repo the obligations of the property analyse"""
    P = run.load()
    fs = {}
    for m, name, _, _ in check.pairs(P, pid):
        o = check.decide(P, m, name, check.opts_of(m).get(name, {}))
        for q in o.funcs:
            fs.setdefault(q, set()).add(name)
    return P, fs


def find(P, qual):
    parts = qual.split('.')
    for k in range(len(parts) - 1, 0, -1):
        m = '.'.join(parts[:k])
        if m in P.modules:
            body = P.modules[m].tree.body
            node = None
            for x in parts[k:]:
                node = next((n for n in body if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == x), None)
                if node is None:
                    return None, None
                body = node.body
            return m, node
    return None, None


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
       ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv}


def mutants(fn):
    """yield (description, mutated copy of fn)"""
    nodes = list(ast.walk(fn))
    doc = ast.get_docstring(fn, clean=False)

    def edit(i, f):
        c = copy.deepcopy(fn)
        n = list(ast.walk(c))[i]
        f(n)
        ast.fix_missing_locations(c)
        return c
    for i, n in enumerate(nodes):
        d = 'line %s ' % getattr(n, 'lineno', '?')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            yield d + 'op ' + ast.unparse(n), edit(i, lambda x: setattr(x, 'op', BIN[type(x.op)]()))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            yield d + 'cmp ' + ast.unparse(n), edit(i, lambda x: setattr(x, 'ops', [CMP[type(x.ops[0])]()]))
        if isinstance(n, ast.BoolOp):
            yield d + 'bool ' + ast.unparse(n), edit(i, lambda x: setattr(x, 'op', ast.Or() if isinstance(x.op, ast.And) else ast.And()))
        if isinstance(n, ast.Constant) and n.value != doc:
            if isinstance(n.value, bool):
                yield d + 'const %r' % n.value, edit(i, lambda x: setattr(x, 'value', not x.value))
            elif isinstance(n.value, (int, float)):
                yield d + 'const %r+1' % n.value, edit(i, lambda x: setattr(x, 'value', x.value + 1))
            elif isinstance(n.value, str) and n.value:
                yield d + 'const %r' % n.value[:30], edit(i, lambda x: setattr(x, 'value', x.value + 'q'))
            elif n.value is None:
                pass
        if isinstance(n, ast.If):
            yield d + 'if-not ' + ast.unparse(n.test), edit(i, lambda x: setattr(x, 'test', ast.UnaryOp(ast.Not(), x.test)))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and ast.dump(n.args[0]) != ast.dump(n.args[1]):
            yield d + 'swap01 ' + ast.unparse(n)[:80], edit(i, lambda x: x.args.__setitem__(slice(0, 2), [x.args[1], x.args[0]]))
        if isinstance(n, ast.Call) and n.keywords and n.keywords[-1].arg:
            yield d + 'dropkw ' + ast.unparse(n)[:80], edit(i, lambda x: x.keywords.pop())
        if isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) == 2 and isinstance(n.ctx, ast.Load) and ast.dump(n.elts[0]) != ast.dump(n.elts[1]):
            yield d + 'swaptuple ' + ast.unparse(n)[:80], edit(i, lambda x: x.elts.reverse())
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            yield d + 'unneg ' + ast.unparse(n)[:60], edit(i, lambda x: setattr(x, 'op', ast.UAdd()))
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        def drop(x, f=f, k=k):
                            getattr(x, f)[k] = ast.Pass()
                        yield 'line %s drop ' % s.lineno + ast.unparse(s)[:80], edit(i, drop)
                    if isinstance(s, ast.Return) and s.value is not None and not (isinstance(s.value, ast.Constant) and s.value.value is None):
                        def none(x, f=f, k=k):
                            getattr(x, f)[k].value = ast.Constant(None)
                        yield 'line %s return None' % s.lineno, edit(i, none)


class Names(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            n.id = self.m[n.id]
        return n


def locals_of(fn):
    args = set(a.arg for a in fn.args.args + fn.args.kwonlyargs)
    if any(isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Global, ast.Nonlocal)) for n in ast.walk(fn) if n is not fn):
        comp = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.comprehension):
                comp |= set(x.id for x in ast.walk(n.target) if isinstance(x, ast.Name))
            if isinstance(n, (ast.Lambda, ast.FunctionDef)) and n is not fn:
                comp |= set(a.arg for a in n.args.args)
        args |= comp
    return sorted(set(n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)) - args)


def refactors(fn, cls):
    """yield (description, rewritten module-level statements, rewritten fn) with the same behaviour"""
    # rename locals
    ls = locals_of(fn)
    if ls:
        c = copy.deepcopy(fn)
        Names(dict((x, x + '_new') for x in ls)).visit(c)
        yield 'rename', [], c
    # negate if/else
    for k, n in enumerate([n for n in ast.walk(fn) if isinstance(n, ast.If)]):
        if n.orelse:
            c = copy.deepcopy(fn)
            x = [y for y in ast.walk(c) if isinstance(y, ast.If)][k]
            x.test, x.body, x.orelse = ast.UnaryOp(ast.Not(), x.test), x.orelse, x.body
            yield 'swap branches %d' % k, [], c
    # early return: if c: A(return) else: B  ->  if c: A; B
    for k, n in enumerate([n for n in ast.walk(fn) if isinstance(n, ast.If)]):
        if n.orelse and isinstance(n.body[-1], (ast.Return, ast.Raise)):
            c = copy.deepcopy(fn)
            x = [y for y in ast.walk(c) if isinstance(y, ast.If)][k]
            for y in ast.walk(c):
                for f in ('body', 'orelse'):
                    b = getattr(y, f, None)
                    if isinstance(b, list) and any(z is x for z in b):
                        j = [z is x for z in b].index(True)
                        b[j + 1:j + 1] = x.orelse
                        x.orelse = []
            yield 'flatten else %d' % k, [], c
    # temporaries: every binary operation and call argument first into a local
    c = copy.deepcopy(fn)
    cnt = [0]

    def pure(e):
        return not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.IfExp, ast.BoolOp, ast.DictComp, ast.Starred, ast.Await, ast.Yield)) for x in ast.walk(e))

    def temps(body):
        out = []
        for s in body:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(s, f, temps(b))
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and pure(s.value):
                v = s.value
                if isinstance(v, ast.BinOp):
                    for f in ('left', 'right'):
                        e = getattr(v, f)
                        if not isinstance(e, (ast.Constant, ast.Name)):
                            cnt[0] += 1
                            t = 'tmp_%d' % cnt[0]
                            out.append(ast.Assign([ast.Name(t, ast.Store())], e))
                            setattr(v, f, ast.Name(t, ast.Load()))
                elif isinstance(v, ast.Call):
                    for j, e in enumerate(v.args):
                        if not isinstance(e, (ast.Constant, ast.Name)):
                            cnt[0] += 1
                            t = 'tmp_%d' % cnt[0]
                            out.append(ast.Assign([ast.Name(t, ast.Store())], e))
                            v.args[j] = ast.Name(t, ast.Load())
                if isinstance(s, ast.Return) and not isinstance(v, (ast.Name, ast.Constant)):
                    cnt[0] += 1
                    t = 'tmp_%d' % cnt[0]
                    out.append(ast.Assign([ast.Name(t, ast.Store())], s.value))
                    s.value = ast.Name(t, ast.Load())
            out.append(s)
        return out
    c.body = temps(c.body)
    if cnt[0]:
        yield 'temporaries', [], c
    # inline single-use locals directly followed by their use
    c = copy.deepcopy(fn)
    done = [0]

    def uses(node, name):
        return [x for x in ast.walk(node) if isinstance(x, ast.Name) and x.id == name]

    def inline(body):
        k = 0
        while k + 1 < len(body):
            s, u = body[k], body[k + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(u, (ast.Assign, ast.Return)) and u.value is not None:
                nm = s.targets[0].id
                if len(uses(c, nm)) == 2 and len([x for x in uses(u.value, nm) if isinstance(x.ctx, ast.Load)]) == 1 and pure(u.value):
                    class R(ast.NodeTransformer):
                        def visit_Name(self, x):
                            return s.value if x.id == nm else x
                    u.value = R().visit(u.value)
                    del body[k]
                    done[0] += 1
                    k = max(0, k - 1)
                    continue
            k += 1
        for s in body:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    inline(b)
    inline(c.body)
    if done[0]:
        yield 'inline', [], c
    # for over range -> while; for x in xs -> indexed
    for k, n in enumerate([n for n in ast.walk(fn) if isinstance(n, ast.For)]):
        has = any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(n))
        if isinstance(n.iter, ast.Call) and getattr(n.iter.func, 'id', None) == 'range' and len(n.iter.args) == 1 and isinstance(n.target, ast.Name) and not has and not n.orelse:
            c = copy.deepcopy(fn)
            x = [y for y in ast.walk(c) if isinstance(y, ast.For)][k]
            for y in ast.walk(c):
                for f in ('body', 'orelse'):
                    b = getattr(y, f, None)
                    if isinstance(b, list) and any(z is x for z in b):
                        j = [z is x for z in b].index(True)
                        v = x.target.id
                        b[j:j + 1] = [ast.Assign([ast.Name(v, ast.Store())], ast.Constant(0)),
                                      ast.While(ast.Compare(ast.Name(v, ast.Load()), [ast.Lt()], [x.iter.args[0]]),
                                                x.body + [ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1))], [])]
                        break
                else:
                    continue
                break
            yield 'for->while %d' % k, [], c
        elif isinstance(n.iter, (ast.Name, ast.Attribute)) and isinstance(n.target, (ast.Name, ast.Tuple)) and not n.orelse:
            c = copy.deepcopy(fn)
            x = [y for y in ast.walk(c) if isinstance(y, ast.For)][k]
            v = 'pos_%d' % k
            # only when the sequence may be indexed: lists are assumed
            x.body.insert(0, ast.Assign([x.target], ast.Subscript(x.iter, ast.Name(v, ast.Load()), ast.Load())))
            x.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [copy.deepcopy(x.iter)], [])], [])
            x.target = ast.Name(v, ast.Store())
            yield 'for->indexed %d (if a list)' % k, [], c
            c = copy.deepcopy(fn)
            x = [y for y in ast.walk(c) if isinstance(y, ast.For)][k]
            x.target = ast.Tuple([ast.Name(v, ast.Store()), x.target], ast.Store())
            x.iter = ast.Call(ast.Name('enumerate', ast.Load()), [x.iter], [])
            yield 'for->enumerate %d' % k, [], c
    # comprehension -> loop
    for k, n in enumerate([n for n in ast.walk(fn) if isinstance(n, ast.Assign) and isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1 and isinstance(n.targets[0], ast.Name)]):
        c = copy.deepcopy(fn)
        x = [y for y in ast.walk(c) if isinstance(y, ast.Assign) and isinstance(y.value, ast.ListComp) and len(y.value.generators) == 1 and isinstance(y.targets[0], ast.Name)][k]
        g = x.value.generators[0]
        t = 'acc_%d' % k
        app = ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [x.value.elt], []))
        body = [app]
        for cond in g.ifs:
            body = [ast.If(cond, body, [])]
        for y in ast.walk(c):
            for f in ('body', 'orelse'):
                b = getattr(y, f, None)
                if isinstance(b, list) and any(z is x for z in b):
                    j = [z is x for z in b].index(True)
                    b[j:j + 1] = [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []),
                                  ast.Assign(x.targets, ast.Name(t, ast.Load()))]
                    break
            else:
                continue
            break
        yield 'comp->loop %d' % k, [], c
    # extract the tail of the body into a helper function
    args = [a.arg for a in fn.args.args]
    if len(fn.body) > 2 and not fn.args.vararg and not fn.args.kwarg and not any(isinstance(n, (ast.Yield, ast.Nonlocal, ast.Global)) for n in ast.walk(fn)) \
            and not any(isinstance(n, ast.Call) and getattr(n.func, 'id', None) == 'super' for n in ast.walk(fn)):
        for cut in sorted(set([len(fn.body) // 2, len(fn.body) - 1, 1])):
            head, tail = fn.body[:cut], fn.body[cut:]
            if any(isinstance(n, ast.Return) for s in head for n in ast.walk(s)):
                continue
            if not tail or cut == 0:
                continue
            st = set(args)
            for s in head:
                st |= set(n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
            used = sorted(set(n.id for s in tail for n in ast.walk(s) if isinstance(n, ast.Name)) & st)
            h = ast.FunctionDef('_extracted_helper', ast.arguments([], [ast.arg(a) for a in used], None, [], [], None, []), copy.deepcopy(tail), [], None, None)
            try:
                h.type_params = []
            except Exception:
                pass
            c = copy.deepcopy(fn)
            # a variable set only on some path cannot be passed: keep only when it is assigned at the top level of the head
            top = set(args)
            for s in head:
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.With, ast.For)):
                    top |= set(n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
                elif isinstance(s, ast.If):
                    a = set(n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
                    b = set(n.id for x in s.orelse for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
                    top |= a & b
            if not set(used) <= top:
                continue
            c.body = copy.deepcopy(head) + [ast.Return(ast.Call(ast.Name('_extracted_helper', ast.Load()), [ast.Name(a, ast.Load()) for a in used], []))]
            yield 'extract helper at %d' % cut, [h], c
    # swap independent neighbours
    for k in range(len(fn.body) - 1):
        a, b = fn.body[k], fn.body[k + 1]
        if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and all(isinstance(t, ast.Name) for t in a.targets + b.targets):
            ra = set(n.id for n in ast.walk(a) if isinstance(n, ast.Name))
            wb = set(t.id for t in b.targets)
            rb = set(n.id for n in ast.walk(b) if isinstance(n, ast.Name))
            wa = set(t.id for t in a.targets)
            if not (wa & rb) and not (wb & ra) and not any(isinstance(n, ast.Call) for n in ast.walk(a)) and not any(isinstance(n, ast.Call) for n in ast.walk(b)):
                c = copy.deepcopy(fn)
                c.body[k], c.body[k + 1] = c.body[k + 1], c.body[k]
                yield 'swap statements %d' % k, [], c
    # augmented assignments spelled out on names bound to numbers only is not decidable here: skip
    # keyword arguments for calls of the program are left alone
    # commute + and *
    class Comm(ast.NodeTransformer):
        n = 0

        def visit_BinOp(self, x):
            self.generic_visit(x)
            if isinstance(x.op, ast.Mult) and not any(isinstance(y, (ast.List, ast.JoinedStr)) or isinstance(y, ast.Constant) and isinstance(y.value, str) for y in (x.left, x.right)):
                self.n += 1
                return ast.BinOp(x.right, x.op, x.left)
            return x

        def visit_Compare(self, x):
            self.generic_visit(x)
            sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
            if len(x.ops) == 1 and type(x.ops[0]) in sw:
                self.n += 1
                return ast.Compare(x.comparators[0], [sw[type(x.ops[0])]()], [x.left])
            return x
    c = copy.deepcopy(fn)
    t = Comm()
    c = t.visit(c)
    if t.n:
        yield 'commute', [], c


def replace_fn(P, mod, qual, new, extra):
    tree = copy.deepcopy(P.modules[mod].tree)
    parts = qual[len(mod) + 1:].split('.')
    body = tree.body
    for x in parts[:-1]:
        body = next(n for n in body if isinstance(n, ast.ClassDef) and n.name == x).body
    k = next(i for i, n in enumerate(body) if isinstance(n, ast.FunctionDef) and n.name == parts[-1])
    body[k] = new
    j = max([i for i, n in enumerate(tree.body) if isinstance(n, (ast.Import, ast.ImportFrom))] + [-1]) + 1
    tree.body[j:j] = extra
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


def main():
    kind = sys.argv[1]
    pids, mx, verbose = [], 0, '-v' in sys.argv
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == '-n':
            mx = int(a.pop(0))
        elif not x.startswith('-'):
            pids.append(x)
    for pid in pids:
        P, fs = traced(pid)
        jobs = []
        for q in sorted(fs):
            m, node = find(P, q)
            if not isinstance(node, ast.FunctionDef):
                continue
            if kind == 'mutants':
                for d, c in mutants(node):
                    jobs.append((q, d, m, c, [], fs[q]))
            elif kind == 'refactor2':
                for d, extra, c in refactor2.refactors(node):
                    jobs.append((q, d, m, c, extra, fs[q]))
            else:
                for d, extra, c in refactors(node, None):
                    jobs.append((q, d, m, c, extra, fs[q]))
        total = len(jobs)
        if mx and len(jobs) > mx:
            random.Random(1).shuffle(jobs)
            jobs = jobs[:mx]
        tally = {}
        for q, d, m, c, extra, only in jobs:
            src = replace_fn(P, m, q, c, extra)
            st, det = forked(verdict, (pid, {m: src}, only))
            tally[st] = tally.get(st, 0) + 1
            show = (kind == 'mutants' and st not in ('violated',)) or (kind != 'mutants' and st not in ('ok',))
            if show:
                print('%s %-9s %s | %s | %s' % (pid, st, q.split('.', 1)[1][-70:], d, '; '.join(det)[:200]))
                sys.stdout.flush()
        print('%s %s of %d: %s' % (pid, kind, total, tally))
        sys.stdout.flush()


if __name__ == '__main__':
    main()
