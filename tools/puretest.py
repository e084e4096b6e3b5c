"""Development aid for P21: in-place mistakes planted in every analysed function; reports the ones not found."""
import ast, copy, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import devtest as D
from sa import check, run
from sa.loader import ModuleInfo

KINDS = ['x += 1', 'x[0] = 0', 'x *= 2', 'x[:, 0] = 1', 'x.append(1)', 'x[numpy.isnan(x)] = 0']


def plants(fn):
    body0 = 1 if ast.get_docstring(fn) else 0
    for a in fn.args.args:
        if a.arg in ('self', 'cls'):
            continue
        for k in KINDS:
            c = copy.deepcopy(fn)
            st = ast.parse(k.replace('x', a.arg)).body[0]
            c.body.insert(body0, st)
            yield k.replace('x', a.arg), c
    for i, n in enumerate(ast.walk(fn)):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (n.func.attr in ('copy', 'deepcopy', 'array', 'list') or n.func.attr == 'astype'):
            c = copy.deepcopy(fn)
            x = list(ast.walk(c))[i]
            e = x.args[0] if n.func.attr in ('array', 'deepcopy') and x.args else x.func.value if n.func.attr in ('copy', 'astype') and not x.args[1:] else None
            if e is None or isinstance(e, (ast.List, ast.Tuple)):
                continue
            src = ast.unparse(x)
            for y in ast.walk(c):
                for f, v in ast.iter_fields(y):
                    if v is x:
                        setattr(y, f, e)
                    elif isinstance(v, list) and x in v:
                        v[v.index(x)] = e
            yield 'no copy: ' + src[:60], c


def pure(over, only):
    P = run.load()
    for n, s in over.items():
        P.modules[n] = ModuleInfo(n, P.modules[n].path, s)
    st = 'ok'
    for m, name, _, _ in check.pairs(P, r'P\d\d'):
        nm = m.name.split('.')[-1] + '.' + name
        if nm not in only:
            continue
        o = check.decide_pure(P, m, name, check.opts_of(m).get(name, {}))
        if o.status == 'violated':
            return 'violated', ''
        if o.status == 'undecided':
            st = 'undecided ' + o.name + ' ' + o.detail[:100]
    return st, ''


P = run.load()
fs = {}
for m, name, _, _ in check.pairs(P, r'P\d\d'):
    o = check.decide_pure(P, m, name, check.opts_of(m).get(name, {}))
    for q in o.funcs:
        fs.setdefault(q, set()).add(o.name)
tally = {}
for q in sorted(fs):
    if len(sys.argv) > 1 and sys.argv[1] not in q:
        continue
    m, node = D.find(P, q)
    if not isinstance(node, ast.FunctionDef) or node.name.startswith('set_'):
        continue
    for d, c in plants(node):
        try:
            src = D.replace_fn(P, m, q, c, [])
        except Exception:
            continue
        st, _ = pure({m: src}, fs[q])
        tally[st.split()[0]] = tally.get(st.split()[0], 0) + 1
        if st != 'violated':
            print(q.split('.', 2)[-1][-80:], '|', d, '|', st)
            sys.stdout.flush()
print(tally)
