"""Development aid: run the syntax-tree rules on rewritten programs.

  linttest.py refactor [P29 ...]        behaviour-preserving rewrites of every function at once, one kind after another: no finding may appear
  linttest.py mutants [P29 ...] [-n K]  K random small mistakes of the kinds the rules are about: reports how many are found
"""
import ast
import copy
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import devtest as D
from sa import loader, lints

ROOT = [('resippy', '/repo/resippy')]


def program(over=None):
    P = loader.Program(ROOT)
    for m, src in (over or {}).items():
        P.modules[m] = loader.ModuleInfo(m, P.modules[m].path, src)
    return P


def functions(tree):
    out = []

    def visit(n, cls):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.FunctionDef):
                out.append((c, n))
            elif isinstance(c, ast.ClassDef):
                visit(c, c)
            elif not isinstance(c, ast.expr):
                visit(c, cls)
    visit(tree, None)
    return out


def findings(over, pids):
    P = program(over)
    out = []
    for pid in pids:
        for L in lints.run_for(pid, P):
            if L.instances < L.minimum:
                out.append((pid, 'too few instances of %s: %d' % (L.name, L.instances)))
            out += [(pid, k + '   ' + t) for k, t, _ in L.findings]
    return out


def refactor(pids):
    P = program()
    rnd = 0
    while True:
        over, n = {}, 0
        for name, m in P.modules.items():
            tree = copy.deepcopy(m.tree)
            extra_all = []
            for fn, parent in functions(tree):
                rs = list(D.refactors(fn, None)) if rnd >= 0 else []
                if rnd >= len(rs):
                    continue
                d, extra, new = rs[rnd]
                for b in ('body', 'orelse', 'finalbody'):
                    bl = getattr(parent, b, None)
                    if isinstance(bl, list) and fn in bl:
                        bl[bl.index(fn)] = new
                for e in extra:
                    nm = '_extracted_helper_%d' % n
                    e.name = nm
                    for x in ast.walk(new):
                        if isinstance(x, ast.Name) and x.id == '_extracted_helper':
                            x.id = nm
                    extra_all.append(e)
                n += 1
            j = max([i for i, s in enumerate(tree.body) if isinstance(s, (ast.Import, ast.ImportFrom))] + [-1]) + 1
            tree.body[j:j] = extra_all
            ast.fix_missing_locations(tree)
            over[name] = ast.unparse(tree)
        if not n:
            break
        fs = findings(over, pids)
        print('round %d: %d functions rewritten, %d findings' % (rnd, n, len(fs)))
        for f in fs:
            print('   ', f[0], f[1][:300])
        sys.stdout.flush()
        rnd += 1


def mistakes(tree):
    """(kind, function that edits a copy of the tree)"""
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            yield 'name', n.lineno, lambda t, i=i: setattr(list(ast.walk(t))[i], 'id', n.id + 'x') if False else ren(t, i, 'id')
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            yield 'attr', n.lineno, lambda t, i=i: ren(t, i, 'attr')
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Store):
            yield 'init', n.lineno, lambda t, i=i: drop_store(t, i)
        elif isinstance(n, ast.Call) and n.args:
            yield 'arg', n.lineno, lambda t, i=i: list(ast.walk(t))[i].args.pop()
        elif isinstance(n, ast.keyword) and n.arg:
            yield 'kw', n.value.lineno, lambda t, i=i: ren(t, i, 'arg')
        elif isinstance(n, ast.alias):
            yield 'import', getattr(n, 'lineno', 0), lambda t, i=i: ren(t, i, 'name')


def ren(t, i, f):
    x = list(ast.walk(t))[i]
    setattr(x, f, getattr(x, f) + 'x')


def drop_store(t, i):
    x = list(ast.walk(t))[i]
    x.value = ast.Name('_nothing', ast.Load())
    # the object the value goes to is a throw-away one
    for s in ast.walk(t):
        if isinstance(s, ast.Assign) and x in s.targets:
            s.targets = [ast.Name('_nothing', ast.Store())]
            return
    raise ValueError('no plain assignment')


def mutants(pids, k):
    P = program()
    jobs = []
    for name, m in sorted(P.modules.items()):
        for kind, line, f in mistakes(m.tree):
            jobs.append((name, kind, line, f))
    random.Random(int(os.environ.get('SEED', '1'))).shuffle(jobs)
    tally = {}
    for name, kind, line, f in jobs[:k]:
        tree = copy.deepcopy(P.modules[name].tree)
        try:
            f(tree)
            ast.fix_missing_locations(tree)
            src = ast.unparse(tree)
        except Exception:
            continue
        fs = findings({name: src}, pids)
        tally.setdefault(kind, [0, 0])[1] += 1
        if fs:
            tally[kind][0] += 1
        else:
            print('missed %s %s:%d %s' % (kind, name, line, P.modules[name].source.split('\n')[line - 1].strip()[:120] if hasattr(P.modules[name], 'source') else ''))
            sys.stdout.flush()
    print(tally)


if __name__ == '__main__':
    a = sys.argv[2:]
    k = 200
    if '-n' in a:
        i = a.index('-n')
        k = int(a[i + 1])
        del a[i:i + 2]
    pids = a or ['P29', 'P32', 'P33']
    refactor(pids) if sys.argv[1] == 'refactor' else mutants(pids, k)
