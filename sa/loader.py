"""Parse the analysed packages; resolve modules, classes (C3 order) and functions."""
import ast
import hashlib
import os


class AnchorMissing(Exception):
    pass


def own_returns(stmts):
    """return statements of a loop body that leave this very loop: [(list, position)], or None when one sits deeper"""
    out = []
    for k, s in enumerate(stmts):
        if isinstance(s, ast.Return):
            out.append((stmts, k))
        elif isinstance(s, ast.If):
            for b in (s.body, s.orelse):
                r = own_returns(b)
                if r is None:
                    return None
                out += r
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            pass
        elif any(isinstance(x, ast.Return) for x in ast.walk(s)):
            return None
    return out


def leave_loops(stmts):
    """`return e` inside a loop directly followed by `return e` is a break"""
    for a, b in zip(stmts, stmts[1:]):
        if isinstance(a, (ast.For, ast.While)) and not a.orelse and isinstance(b, ast.Return):
            r = own_returns(a.body)
            d = ast.dump(b)
            if r and all(ast.dump(l[k]) == d for l, k in r):
                for l, k in r:
                    l[k] = ast.copy_location(ast.Break(), l[k])


class ModuleInfo(object):
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = ast.parse(src, filename=path)
        for n in ast.walk(self.tree):
            for f in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(n, f, None), list):
                    leave_loops(getattr(n, f))
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.digest = hashlib.sha256(src.encode()).hexdigest()[:16]
        self.env = None      # filled in by the interpreter
        self.evaluating = False


class ClassInfo(object):
    def __init__(self, name, module, node, bases, attrs):
        self.name = name
        self.module = module
        self.node = node
        self.bases = bases        # list of ClassInfo or ExtV
        self.attrs = attrs        # name -> Val
        self.qual = module.name + '.' + name

    def mro(self):
        try:
            return self._mro
        except AttributeError:
            pass
        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                seqs = [[x for x in s if x is not c] for s in seqs]
                seqs = [s for s in seqs if s]
            return out
        bs = [b for b in self.bases if isinstance(b, ClassInfo)]
        self._mro = [self] + merge([b.mro() for b in bs] + [bs])
        return self._mro

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def __repr__(self):
        return '<class %s>' % self.qual


class Program(object):
    def __init__(self, roots):
        """roots: list of (package name, directory)"""
        self.modules = {}
        self.errors = []
        self.used = {}
        for pkg, d in roots:
            for dp, dn, fn in os.walk(d):
                dn[:] = sorted(x for x in dn if not x.startswith(('.', '__pycache__')))
                for f in sorted(fn):
                    if not f.endswith('.py'):
                        continue
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, d)[:-3].replace(os.sep, '.')
                    name = pkg + '.' + rel
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    try:
                        with open(p, encoding='utf-8') as h:
                            src = h.read()
                        self.modules[name] = ModuleInfo(name, p, src)
                    except SyntaxError as e:
                        self.errors.append((p, str(e)))

    def method_sig(self, name):
        """parameters shared by every method of that name in the analysed package: [(name, constant default or None)]"""
        if not hasattr(self, '_msigs'):
            self._msigs = {}
            for m in self.modules.values():
                if not m.name.startswith('resippy'):
                    continue
                for c in ast.walk(m.tree):
                    for f in c.body if isinstance(c, ast.ClassDef) else ():
                        if isinstance(f, ast.FunctionDef):
                            a = f.args
                            d = set(ast.unparse(x) for x in f.decorator_list)
                            ps = [x.arg for x in a.posonlyargs + a.args]
                            df = [None] * (len(ps) - len(a.defaults)) + [ast.dump(x) if isinstance(x, ast.Constant) else None for x in a.defaults]
                            if d - {'abc.abstractmethod', 'abstractmethod', 'classmethod'} or a.vararg or a.kwarg or not ps or ps[0] not in ('self', 'cls'):
                                ps = df = None
                            self._msigs.setdefault(f.name, []).append((ps, df))
            for n, v in list(self._msigs.items()):
                if any(p is None for p, d in v):
                    self._msigs[n] = None
                    continue
                p = max((p for p, d in v), key=len)
                out = []
                for k in range(1, len(p)):
                    ds = set(d[k] for q, d in v if len(q) > k)
                    names = set(q[k] for q, d in v if len(q) > k)
                    # a parameter that is not called the same everywhere is given by position
                    pn = names.pop() if len(names) == 1 and all(p[k] not in q or q.index(p[k]) == k for q, d in v) else None
                    out.append((pn, ds.pop() if len(ds) == 1 else None))
                self._msigs[n] = out
        return self._msigs.get(name)

    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            self.used[name] = m.digest
        return m
