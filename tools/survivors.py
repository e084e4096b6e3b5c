"""Development test (never a check): mutants of every analysed function that no property reports.
usage: survivors.py [-j N] [-o FILE] [-f FUNC_SUBSTRING] [-k std|more|all] [-P PNN,PNN]"""
import ast
import copy
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from multiprocessing import Pool
from sa import check, run
from sa.loader import ModuleInfo
from tools import devtest as D

PAIRS = [('max', 'min'), ('ceil', 'floor'), ('sin', 'cos'), ('argmax', 'argmin'), ('nanmax', 'nanmin'), ('zeros', 'ones'), ('amax', 'amin'), ('mean', 'median'), ('nanmean', 'mean'),
         ('round', 'floor'), ('degrees', 'radians'), ('arcsin', 'arccos'), ('append', 'insert'), ('vstack', 'hstack'), ('find', 'rfind'), ('lstrip', 'rstrip'), ('read', 'readline'),
         ('startswith', 'endswith'), ('flatten', 'squeeze'), ('ravel', 'squeeze'), ('get_npix_x', 'get_npix_y'), ('lower', 'upper'), ('nanmin', 'min'), ('nanmax', 'max')]
SWAP = {}
for a, b in PAIRS:
    SWAP.setdefault(a, []).append(b)
    SWAP.setdefault(b, []).append(a)
TWINS = [('x', 'y'), ('lon', 'lat'), ('nx', 'ny'), ('lons', 'lats'), ('samp', 'line'), ('min', 'max'), ('width', 'height'), ('omega', 'phi'), ('phi', 'kappa'), ('roll', 'pitch'),
         ('pitch', 'yaw'), ('1', '2'), ('first', 'last'), ('src', 'dst'), ('num', 'den'), ('left', 'right'), ('upper', 'lower'), ('0', '1'), ('off', 'scale'), ('xs', 'ys')]


def twins(name):
    parts = name.split('_')
    out = []
    for k, p in enumerate(parts):
        for a, b in TWINS:
            if p == a:
                out.append('_'.join(parts[:k] + [b] + parts[k + 1:]))
            elif p == b:
                out.append('_'.join(parts[:k] + [a] + parts[k + 1:]))
    return out


def more(fn):
    nodes = list(ast.walk(fn))
    doc = ast.get_docstring(fn, clean=False)
    names = set(n.id for n in nodes if isinstance(n, ast.Name)) | set(a.arg for a in fn.args.args)
    stored = set(n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)) | set(a.arg for a in fn.args.args)
    attrs = set(n.attr for n in nodes if isinstance(n, ast.Attribute))

    def edit(i, f):
        c = copy.deepcopy(fn)
        n = list(ast.walk(c))[i]
        f(n)
        ast.fix_missing_locations(c)
        return c
    for i, n in enumerate(nodes):
        d = 'line %s ' % getattr(n, 'lineno', '?')
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            yield d + 'const %r-1' % n.value, edit(i, lambda x: setattr(x, 'value', x.value - 1))
            if n.value not in (0,):
                yield d + 'const -%r' % n.value, edit(i, lambda x: setattr(x, 'value', -x.value))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}.get(type(n.ops[0]))
            if alt:
                yield d + 'edge ' + ast.unparse(n), edit(i, lambda x: setattr(x, 'ops', [alt()]))
        if isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                yield d + 'drop operand %d of %s' % (k, ast.unparse(n)), edit(i, lambda x, k=k: setattr(x, 'values', [v for j, v in enumerate(x.values) if j != k]))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for b in SWAP.get(n.attr, ()):
                yield d + 'callee %s->%s' % (n.attr, b), edit(i, lambda x, b=b: setattr(x, 'attr', b))
            for b in twins(n.attr):
                if b in attrs:
                    yield d + 'attr %s->%s in %s' % (n.attr, b, ast.unparse(n)[:60]), edit(i, lambda x, b=b: setattr(x, 'attr', b))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            for b in twins(n.attr):
                if b in attrs:
                    yield d + 'store attr %s->%s' % (n.attr, b), edit(i, lambda x, b=b: setattr(x, 'attr', b))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for b in twins(n.id):
                if b in stored:
                    yield d + 'name %s->%s' % (n.id, b), edit(i, lambda x, b=b: setattr(x, 'id', b))
        if isinstance(n, ast.Call):
            s = ast.unparse(n)[:70]
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'astype', 'squeeze', 'strip', 'to', 'transpose', 'lower', 'upper', 'flatten', 'tolist') and len(n.args) <= 1:
                def unwrap(x):
                    v = x.func.value
                    x.func, x.args, x.keywords = ast.Name('_same', ast.Load()), [v], []
                if n.func.attr not in ('to',):
                    yield d + 'unwrap ' + s, edit(i, unwrap)
            fname = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
            if fname in ('int', 'float', 'round', 'squeeze', 'abs', 'array', 'sorted', 'list', 'ravel', 'asarray', 'float64', 'deepcopy', 'copy', 'flip', 'ceil', 'floor', 'transpose', 'radians', 'deg2rad') and len(n.args) >= 1:
                def un2(x):
                    x.func, x.args, x.keywords = ast.Name('_same', ast.Load()), x.args[:1], []
                yield d + 'unwrap ' + s, edit(i, un2)
            if fname == 'range' and len(n.args) == 1:
                yield d + 'short ' + s, edit(i, lambda x: x.args.__setitem__(0, ast.BinOp(x.args[0], ast.Sub(), ast.Constant(1))))
                yield d + 'late ' + s, edit(i, lambda x: setattr(x, 'args', [ast.Constant(1), x.args[0]]))
            if len(n.keywords) > 1:
                for k in range(len(n.keywords) - 1):
                    if n.keywords[k].arg:
                        yield d + 'dropkw %s of %s' % (n.keywords[k].arg, s), edit(i, lambda x, k=k: x.keywords.pop(k))
            if len(n.args) >= 3 and not any(isinstance(a, ast.Starred) for a in n.args):
                for k in range(1, len(n.args) - 1):
                    if ast.dump(n.args[k]) != ast.dump(n.args[k + 1]):
                        yield d + 'swap %d%d %s' % (k, k + 1, s), edit(i, lambda x, k=k: x.args.__setitem__(slice(k, k + 2), [x.args[k + 1], x.args[k]]))
        if isinstance(n, ast.Slice):
            for f in ('lower', 'upper', 'step'):
                if getattr(n, f) is not None:
                    yield d + 'slice no %s %s' % (f, ast.unparse(n)), edit(i, lambda x, f=f: setattr(x, f, None))
            if n.upper is not None and not (isinstance(n.upper, ast.Constant) and isinstance(n.upper.value, str)):
                yield d + 'slice upper-1 %s' % ast.unparse(n), edit(i, lambda x: setattr(x, 'upper', ast.BinOp(x.upper, ast.Sub(), ast.Constant(1))))
            if n.lower is not None:
                yield d + 'slice lower+1 %s' % ast.unparse(n), edit(i, lambda x: setattr(x, 'lower', ast.BinOp(x.lower, ast.Add(), ast.Constant(1))))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Sub, ast.Div, ast.Pow)):
            def sw(x):
                x.left, x.right = x.right, x.left
            yield d + 'reverse ' + ast.unparse(n)[:70], edit(i, sw)
        if isinstance(n, ast.Tuple) and len(n.elts) >= 3 and isinstance(n.ctx, ast.Load):
            for k in range(len(n.elts) - 1):
                if ast.dump(n.elts[k]) != ast.dump(n.elts[k + 1]):
                    yield d + 'swap elts %d %s' % (k, ast.unparse(n)[:70]), edit(i, lambda x, k=k: x.elts.__setitem__(slice(k, k + 2), [x.elts[k + 1], x.elts[k]]))
        if isinstance(n, (ast.For, ast.While)):
            yield d + 'first only', edit(i, lambda x: x.body.append(ast.Break()))
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list) and len(b) > 1 and isinstance(b[0], ast.stmt):
                for k, s in enumerate(b[:-1]):
                    if isinstance(s, ast.If) and not s.orelse:
                        def unc(x, f=f, k=k):
                            getattr(x, f)[k:k + 1] = getattr(x, f)[k].body
                        yield 'line %s always %s' % (s.lineno, ast.unparse(s.test)[:60]), edit(i, unc)
                    if isinstance(s, ast.If):
                        def nev(x, f=f, k=k):
                            getattr(x, f)[k:k + 1] = getattr(x, f)[k].orelse or [ast.Pass()]
                        yield 'line %s never %s' % (s.lineno, ast.unparse(s.test)[:60]), edit(i, nev)
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) is False and n.value is not None and i:
            pass


SAME = ast.parse('def _same(v):\n    return v').body


def work(job):
    q, d, m, src, obs, hard = job

    def run_all():
        P = BASE
        P.modules[m] = ModuleInfo(m, P.modules[m].path, src)
        st, det = 'ok', []
        for mn, name in obs:
            o = check.decide(P, P.modules[mn], name, check.opts_of(P.modules[mn]).get(name, {}))
            if o.status == 'violated':
                return 'violated', [o.name]
            if o.status == 'undecided':
                st = 'undecided'
                det.append(o.name + ' ' + o.detail[:100])
        return st, det
    st, det = D.forked(run_all, (), 200)
    return q, d, st, det


BASE = None


def setup():
    global BASE
    BASE = run.load()


def main():
    a = sys.argv[1:]
    nj, out, sub, kind, only, again = 7, '/tmp/survivors.txt', '', 'all', None, None
    while a:
        x = a.pop(0)
        v = a.pop(0)
        if x == '-j':
            nj = int(v)
        elif x == '-o':
            out = v
        elif x == '-f':
            sub = v
        elif x == '-k':
            kind = v
        elif x == '-r':                 # only the mutants listed in an earlier output
            again = set(tuple(y.strip() for y in l.split(' | ')[:2]) for l in open(v) if ' | ' in l)
        elif x == '-P':
            only = v.split(',')
    setup()
    P = BASE
    fs = {}
    cost = {}
    for i in range(1, 42):
        pid = 'P%02d' % i
        if only and pid not in only:
            continue
        for m, name, _, _ in check.pairs(P, pid):
            o = check.decide(P, m, name, check.opts_of(m).get(name, {}))
            cost[(m.name, name)] = o.wall
            for q in o.funcs:
                fs.setdefault(q, []).append((m.name, name))
    jobs = []
    for q in sorted(fs):
        if sub not in q:
            continue
        m, node = D.find(P, q)
        if not isinstance(node, ast.FunctionDef):
            continue
        obs = sorted(fs[q], key=lambda k: cost[k])
        gens = []
        if kind in ('std', 'all'):
            gens.append((D.mutants(node), []))
        if kind in ('more', 'all'):
            gens.append((more(node), SAME))
        for g, extra in gens:
            for d, c in g:
                if again is not None and (q, d.strip()) not in again:
                    continue
                try:
                    src = D.replace_fn(P, m, q, c, copy.deepcopy(extra))
                    ast.parse(src)
                except SyntaxError:
                    continue
                jobs.append((q, d, m, src, obs, None))
    print(len(fs), 'functions', len(jobs), 'mutants')
    sys.stdout.flush()
    tally = {}
    with open(out, 'w') as h:
        import threading
        from concurrent.futures import ThreadPoolExecutor
        lock = threading.Lock()

        def one(j):
            r = work(j)
            with lock:
                tally[r[2]] = tally.get(r[2], 0) + 1
                if r[2] != 'violated':
                    h.write('%s | %s | %s | %s\n' % (r[0], r[1], r[2], '; '.join(r[3])[:200]))
                    h.flush()
        with ThreadPoolExecutor(nj) as ex:
            list(ex.map(one, jobs))
        h.write('DONE %s of %d\n' % (tally, len(jobs)))
    print(tally)


if __name__ == '__main__':
    main()
