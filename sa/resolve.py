"""Resolve names, attributes and calls of the analysed package from its syntax trees (no execution)."""
import ast
import builtins
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__path__'}


class Lib(object):
    def __init__(self):
        with open(os.path.join(HERE, 'data', 'lib.json')) as h:
            d = json.load(h)
        self.absent, self.modules, self.sigs = set(d['absent']), d['modules'], d['signatures']
        self.attrs = set(d['attributes'])
        self.units, self.prefixes = set(d['units']), d['prefixes']


LIB = None


def lib():
    global LIB
    if LIB is None:
        LIB = Lib()
    return LIB


class B(object):
    """what a name stands for: kind in mod/class/func/ext/var, val"""
    __slots__ = ('kind', 'val', 'extra')

    def __init__(self, kind, val, extra=None):
        self.kind, self.val, self.extra = kind, val, extra


class Cls(object):
    def __init__(self, qual, mod, node):
        self.qual, self.mod, self.node = qual, mod, node
        self.name = node.name
        self.bases, self.ext_bases = [], []
        self.methods, self.attrs = {}, set()
        self.self_attrs = set()
        self.subs = []
        self.outside = set()
        self.ns = {}

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
                todo = c.bases + todo
        return out

    def all_subs(self):
        out, todo = [], list(self.subs)
        while todo:
            c = todo.pop()
            if c not in out:
                out.append(c)
                todo += c.subs
        return out

    def method(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name], c
        return None, None

    def open_ended(self):
        return any(c.ext_bases for c in self.mro()) or any('__getattr__' in c.methods for c in self.mro())

    def names(self):
        r = set()
        for c in self.mro():
            r |= set(c.methods) | c.attrs | c.self_attrs | c.outside
        return r


class Fn(object):
    def __init__(self, node, mod, cls=None, parent=None, qual=None):
        self.node, self.mod, self.cls, self.parent = node, mod, cls, parent
        self.qual = qual
        deco = [d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else '' for d in node.decorator_list]
        self.deco = deco
        self.static = 'staticmethod' in deco
        self.classm = 'classmethod' in deco
        self.prop = 'property' in deco or any(d in ('setter', 'getter', 'abstractproperty') for d in deco)
        self.opaque = any(d not in ('staticmethod', 'classmethod', 'property', 'abstractmethod', 'setter', 'getter', 'abstractproperty') for d in deco)


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from targets(e)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


def bound_names(body):
    """names bound directly in a scope body (not in nested functions)"""
    out = set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name.split('.')[0]))
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            pass
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in body:
        visit(s)
    return out


def params(f):
    a = f.args
    r = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args + a.kwonlyargs]
    if a.vararg:
        r.append(a.vararg.arg)
    if a.kwarg:
        r.append(a.kwarg.arg)
    return r


class Resolver(object):
    def __init__(self, P, pkg='resippy'):
        self.P, self.pkg = P, pkg
        self.mods = dict((n, m) for n, m in P.modules.items() if n == pkg or n.startswith(pkg + '.'))
        self.ns = {}
        self.classes, self.funcs = {}, {}
        self.fn_list = []
        for n, m in self.mods.items():
            self.ns[n] = {}
        self.pkgmods = set(self.mods)
        for n in list(self.mods):
            while '.' in n:
                n = n.rsplit('.', 1)[0]
                self.pkgmods.add(n)
        for n, m in self.mods.items():
            self.scan_module(n, m)
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve(b, c.ns)
                if r is not None and r.kind == 'class':
                    c.bases.append(r.val)
                    r.val.subs.append(c)
                elif isinstance(b, ast.Name) and b.id == 'object' or ast.unparse(b) in ('ABC', 'abc.ABC', 'six.with_metaclass(abc.ABCMeta)') or 'with_metaclass' in ast.unparse(b) and 'ABCMeta' in ast.unparse(b):
                    if isinstance(b, ast.Call):
                        for a in b.args[1:]:
                            r = self.resolve(a, c.ns)
                            if r is not None and r.kind == 'class':
                                c.bases.append(r.val)
                                r.val.subs.append(c)
                else:
                    c.ext_bases.append(ast.unparse(b))
        self.ret = {}
        self.infer()

    # ---- modules
    def absmod(self, m, node):
        if not node.level:
            return node.module
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (node.level - 1)]
        return '.'.join(parts + ([node.module] if node.module else []))

    def import_bindings(self, m, node):
        out = {}
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    out[a.asname] = B('mod', a.name)
                else:
                    out[a.name.split('.')[0]] = B('mod', a.name.split('.')[0])
        else:
            base = self.absmod(m, node)
            for a in node.names:
                full = base + '.' + a.name
                out[a.asname or a.name] = B('mod', full) if full in self.pkgmods else B('from', (base, a.name))
        return out

    def scan_module(self, name, m):
        ns = self.ns[name]

        def visit(body, top=True):
            for s in body:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    for k, b in self.import_bindings(m, s).items():
                        ns[k] = b
                elif isinstance(s, ast.FunctionDef):
                    f = Fn(s, m, None, None, name + '.' + s.name)
                    ns[s.name] = B('func', f)
                    self.funcs[f.qual] = f
                    self.add_fn(f)
                elif isinstance(s, ast.ClassDef):
                    c = Cls(name + '.' + s.name, m, s)
                    c.ns = dict(ns)
                    self.classes[c.qual] = c
                    ns[s.name] = B('class', c)
                    self.scan_class(c)
                elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for fld in ('body', 'orelse', 'finalbody'):
                        visit(getattr(s, fld, []) or [])
                    for h in getattr(s, 'handlers', []):
                        visit(h.body)
                    for x in ast.walk(s):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            ns.setdefault(x.id, B('var', None))
                else:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            v = s.value if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) else None
                            if isinstance(v, (ast.Name, ast.Attribute)):
                                ns[x.id] = B('alias', v)
                            else:
                                ns[x.id] = B('var', v)
        visit(m.tree.body)

    def add_fn(self, f):
        self.fn_list.append(f)
        for n in ast.walk(f.node):
            if n is not f.node and isinstance(n, ast.FunctionDef):
                n._resolve_parent = f

    def scan_class(self, c):
        for s in c.node.body:
            if isinstance(s, ast.FunctionDef):
                f = Fn(s, c.mod, c, None, c.qual + '.' + s.name)
                if not (s.name in c.methods and 'setter' in f.deco):
                    c.methods[s.name] = f
                self.add_fn(f)
                for x in ast.walk(s):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and s.args.args and not f.static and x.value.id == s.args.args[0].arg:
                        c.self_attrs.add(x.attr)
            elif isinstance(s, ast.ClassDef):
                c.attrs.add(s.name)
                k = Cls(c.qual + '.' + s.name, c.mod, s)
                self.classes[k.qual] = k
                self.scan_class(k)
            else:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        c.attrs.add(x.id)

    # ---- resolution of an expression to a binding
    def deref(self, b, depth=0):
        if b is None or depth > 8:
            return None
        if b.kind == 'from':
            base, n = b.val
            if base in self.ns:
                if n in self.ns[base]:
                    return self.deref_in(self.ns[base][n], base, depth + 1)
                if base + '.' + n in self.pkgmods:
                    return B('mod', base + '.' + n)
                return B('missing', base + '.' + n)
            return self.ext_member(base, n)
        return b

    def deref_in(self, b, modname, depth):
        if b.kind == 'alias':
            return self.resolve(b.val, self.ns[modname], depth + 1)
        return self.deref(b, depth)

    def ext_member(self, base, n):
        L = lib()
        if base in L.modules:
            k = L.modules[base].get(n)
            if k is None:
                if base + '.' + n in L.modules:
                    return B('mod', base + '.' + n)
                return B('missing', base + '.' + n)
            if k.startswith('m:'):
                return B('mod', k[2:] if k[2:] in L.modules else base + '.' + n)
            return B('ext', base + '.' + n, k)
        if base.split('.')[0] == self.pkg:
            return B('missing', base + '.' + n)
        return None

    def resolve(self, e, ns, depth=0):
        if depth > 8:
            return None
        if isinstance(e, ast.Name):
            b = ns.get(e.id)
            if b is None:
                return None
            if b.kind == 'alias':
                return self.resolve(b.val, ns, depth + 1)
            return self.deref(b)
        if isinstance(e, ast.Attribute):
            b = self.resolve(e.value, ns, depth + 1)
            if b is None:
                return None
            return self.member(b, e.attr)
        return None

    def member(self, b, attr):
        if b.kind == 'mod':
            n = b.val
            if n in self.ns:
                if attr in self.ns[n]:
                    return self.deref_in(self.ns[n][attr], n, 1)
                if n + '.' + attr in self.pkgmods:
                    return B('mod', n + '.' + attr)
                if attr.startswith('__'):
                    return None
                return B('missing', n + '.' + attr)
            if n in self.pkgmods:
                return B('mod', n + '.' + attr) if n + '.' + attr in self.pkgmods else B('missing', n + '.' + attr)
            return self.ext_member(n, attr)
        if b.kind == 'class':
            c = b.val
            f, k = c.method(attr)
            if f is not None:
                return B('method', f, c)
            if attr in c.names() or attr.startswith('__') or c.open_ended():
                return None
            return B('missing', c.qual + '.' + attr)
        if b.kind == 'missing':
            return None
        return None

    # ---- local environments
    def local_ns(self, f):
        """bindings visible inside function f: module names minus locals, plus local imports and nested functions"""
        ns = dict(self.ns[f.mod.name])
        chain = []
        n = f
        while n is not None:
            chain.append(n)
            n = n.parent
        for g in reversed(chain):
            glob = set(x for s in ast.walk(g.node) if isinstance(s, ast.Global) for x in s.names)
            loc = (bound_names(g.node.body) | set(params(g.node))) - glob
            imp = {}
            cnt = {}
            for s in ast.walk(g.node):
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    imp.update(self.import_bindings(f.mod, s))
            for s in ast.walk(g.node):
                if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                    cnt[s.id] = 1
            for x in loc:
                ns.pop(x, None)
                if x in imp and x not in cnt:
                    ns[x] = imp[x]
            for s in ast.walk(g.node):
                if isinstance(s, ast.FunctionDef) and s is not g.node and s.name in loc and s.name not in cnt:
                    ns[s.name] = B('func', Fn(s, f.mod, None, g, g.qual + '.' + s.name))
        return ns

    # ---- instance types
    def infer(self):
        """return classes of functions and classes of self attributes, to a fixpoint; None = unknown"""
        self.ret, self.attr_cls = {}, {}
        self.fn_ns = dict((f.qual + str(f.node.lineno), self.local_ns(f)) for f in self.fn_list)
        for rnd in range(4):
            for f in self.fn_list:
                env = self.types_in(f)
                rs = []
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Return):
                        rs.append(None if n.value is None else self.type_of(n.value, f, env))
                if rs and all(r is not None for r in rs) and len(set(rs)) == 1 and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f.node)):
                    self.ret[f.qual] = rs[0]
                else:
                    self.ret.pop(f.qual, None)
            seen = {}
            for f in self.fn_list:
                env = self.types_in(f)
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute):
                                c = self.type_of(t.value, f, env)
                                if c is not None:
                                    if isinstance(n.value, ast.Constant) and n.value.value is None:
                                        continue
                                    seen.setdefault((c, t.attr), set()).add(self.type_of(n.value, f, env))
                                    if t.attr not in c.names():
                                        c.outside.add(t.attr)
            # a function given the object may assign its attributes
            for f in self.fn_list:
                env = self.types_in(f)
                ns = self.ns_of(f)
                for n in own_nodes(f.node):
                    if not isinstance(n, ast.Call):
                        continue
                    for i, x in enumerate(n.args):
                        c = env.get(x.id) if isinstance(x, ast.Name) else None
                        if not isinstance(c, Cls):
                            continue
                        b = self.resolve(n.func, ns) if not (isinstance(n.func, ast.Name) and n.func.id in env) else None
                        if b is not None and b.kind == 'func' and i < len(b.val.node.args.args):
                            a = b.val.node.args.args[i].arg
                            for y in ast.walk(b.val.node):
                                if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name) and y.value.id == a and y.attr not in c.names():
                                    c.outside.add(y.attr)
            self.attr_cls = dict((k, list(v)[0]) for k, v in seen.items() if len(v) == 1 and None not in v)

    def ns_of(self, f):
        return self.fn_ns.get(f.qual + str(f.node.lineno)) or self.local_ns(f)

    def types_in(self, f):
        """local name -> class when every assignment in the function agrees"""
        env, bad = {}, set()
        a = f.node.args.args
        if f.cls is not None and a and not f.static:
            env[a[0].arg] = ('cls', f.cls) if f.classm else f.cls
        for p in params(f.node):
            if p not in env:
                bad.add(p)
        for n in own_nodes(f.node):
            if isinstance(n, (ast.For, ast.comprehension)):
                bad.update(targets(n.target))
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        bad.update(targets(i.optional_vars))
            elif isinstance(n, ast.AugAssign):
                bad.update(targets(n.target))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if not isinstance(t, ast.Name):
                        if isinstance(t, (ast.Tuple, ast.List)):
                            bad.update(targets(t))
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)):
                bad.update(targets(n.target))
            elif isinstance(n, ast.ExceptHandler) and n.name:
                bad.add(n.name)
        for rnd in range(3):
            new = {}
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            if isinstance(n.value, ast.Constant) and n.value.value is None:
                                new.setdefault(t.id, set()).add(None)
                            else:
                                new.setdefault(t.id, set()).add(self.type_of(n.value, f, env))
            for k, v in new.items():
                if k in bad or k in params(f.node):
                    bad.add(k)
                elif len(v) == 1 and None not in v:
                    env[k] = list(v)[0]
                else:
                    env.pop(k, None)
        for k in bad:
            if not (a and k == a[0].arg and f.cls is not None and not f.static and k not in set(x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))):
                env.pop(k, None)
        return env

    def type_of(self, e, f, env):
        if isinstance(e, ast.Name):
            r = env.get(e.id)
            return r
        if isinstance(e, ast.Attribute):
            t = self.type_of(e.value, f, env)
            if isinstance(t, Cls):
                for c in t.mro():
                    if (c, e.attr) in self.attr_cls:
                        return self.attr_cls[(c, e.attr)]
            return None
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Name) and isinstance(env.get(fn.id), tuple):
                return env[fn.id][1]
            if isinstance(fn, ast.Attribute):
                t = self.type_of(fn.value, f, env)
                if isinstance(t, tuple):
                    t = t[1]
                if isinstance(t, Cls):
                    g, k = t.method(fn.attr)
                    if g is not None and not any(fn.attr in s.methods for s in t.all_subs()):
                        return self.ret.get(g.qual)
                    return None
            b = self.resolve(fn, self.ns_of(f))
            if b is not None:
                if b.kind == 'class':
                    return b.val
                if b.kind in ('func', 'method'):
                    r = self.ret.get(b.val.qual)
                    if r is not None and b.kind == 'method' and b.val.classm and b.extra is not b.val.cls and r is b.val.cls:
                        return b.extra
                    return r
            return None
        return None


def own_nodes(f):
    """nodes of a function without those of nested functions (comprehensions and lambdas are included)"""
    out = []

    def visit(n):
        out.append(n)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.append(c)
                continue
            visit(c)
    for s in f.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            out.append(s)
            continue
        visit(s)
    return out


def arity(f, drop_first):
    """(required positional names, all positional names, vararg, kwonly required, kwonly all, kwarg)"""
    a = f.args
    pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
    nd = len(a.defaults)
    req = pos[:len(pos) - nd] if nd else list(pos)
    if drop_first:
        pos, req = pos[1:], req[1:] if req else req
    kw = [x.arg for x in a.kwonlyargs]
    kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return req, pos, a.vararg is not None, kwreq, kw, a.kwarg is not None


def bind_error(call, f, drop_first):
    """why the call does not fit the parameters of f, or None"""
    req, pos, va, kwreq, kw, vk = arity(f, drop_first)
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len([a for a in call.args if not isinstance(a, ast.Starred)])
    if n > len(pos) and not va:
        return '%d positional arguments for %d parameters' % (n, len(pos))
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in pos and k.arg not in kw and not vk:
            return 'no parameter named %s' % k.arg
        if k.arg in given and not star:
            return 'two values for %s' % k.arg
        given.add(k.arg)
    if not star and not dstar:
        miss = [r for r in req + kwreq if r not in given]
        if miss:
            return 'nothing given for %s' % ', '.join(miss)
    return None


def sig_error(call, s):
    """why the call does not fit an installed library's signature [lo, hi, kws, varkw], or None"""
    lo, hi, kws, vk = s
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    n = len(call.args)
    if hi >= 0 and n > hi:
        return '%d positional arguments for at most %d' % (n, hi)
    for k in call.keywords:
        if k.arg not in kws and not vk:
            return 'no parameter named %s' % k.arg
    if n + len(call.keywords) < lo:
        return '%d arguments for at least %d' % (n + len(call.keywords), lo)
    return None


def unassigned_uses(f):
    """local names read where no assignment can have happened yet on any path (including names never assigned)"""
    loc = bound_names(f.body) | set(params(f))
    glob = set(x for s in ast.walk(f) if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names)
    loc -= glob
    bad = []

    def uses(e, have):
        """evaluate expression e: report reads, return names bound by walrus"""
        st = [e]
        comp = set()
        while st:
            n = st.pop()
            if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                inner = set()
                for g in n.generators:
                    inner |= set(targets(g.target))
                st2 = [x for x in ast.iter_child_nodes(n)]
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in loc and x.id not in have and x.id not in inner:
                        if not any(isinstance(y, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)) and y is not n for y in ast.walk(n)):
                            bad.append(x)
                continue
            if isinstance(n, ast.NamedExpr):
                have.add(n.target.id)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc and n.id not in have:
                bad.append(n)
            st.extend(ast.iter_child_nodes(n))

    def stores(t, have):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                have.add(n.id)

    def block(body, have):
        """have: names that may be assigned; returns may-set after, or None when it cannot be left at the end"""
        for s in body:
            if have is None:
                return None
            have = stmt(s, have)
        return have

    def join(*hs):
        hs = [h for h in hs if h is not None]
        return set().union(*hs) if hs else None

    def stmt(s, have):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            have.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                have.add(a.asname or a.name.split('.')[0])
        elif isinstance(s, ast.Assign):
            uses(s.value, have)
            for t in s.targets:
                uses(t, have)
                stores(t, have)
        elif isinstance(s, ast.AugAssign):
            uses(s.value, have)
            if isinstance(s.target, ast.Name) and s.target.id in loc and s.target.id not in have:
                bad.append(s.target)
            uses(s.target, have)
            stores(s.target, have)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                uses(s.value, have)
                stores(s.target, have)
        elif isinstance(s, ast.If):
            uses(s.test, have)
            return join(block(s.body, set(have)), block(s.orelse, set(have)))
        elif isinstance(s, (ast.For, ast.While)):
            inner = set(have)
            for n in s.body:                 # a second pass sees what the first one bound
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        inner.add(x.id)
            inner |= bound_names(s.body)
            if isinstance(s, ast.For):
                uses(s.iter, have)
                stores(s.target, inner)
                stores(s.target, have)
            else:
                uses(s.test, inner)
            a = block(s.body, set(inner))
            r = inner | have
            b = block(s.orelse, set(r))
            return join(r, b)
        elif isinstance(s, ast.With):
            for i in s.items:
                uses(i.context_expr, have)
                if i.optional_vars is not None:
                    stores(i.optional_vars, have)
            return block(s.body, have)
        elif isinstance(s, ast.Try):
            h0 = set(have) | bound_names(s.body)
            a = block(s.body, set(have))
            a = block(s.orelse, a) if a is not None else None
            outs = [a]
            for h in s.handlers:
                hh = set(h0)
                if h.name:
                    hh.add(h.name)
                outs.append(block(h.body, hh))
            r = join(*outs)
            if s.finalbody:
                fin = block(s.finalbody, set(h0) | (r or set()) | set().union(*[bound_names(h.body) for h in s.handlers] or [set()]))
                return None if r is None or fin is None else r | fin
            return r
        elif isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                uses(c, have)
            return None
        elif isinstance(s, (ast.Break, ast.Continue)):
            return None
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                uses(t, have)
        else:
            for c in ast.iter_child_nodes(s):
                uses(c, have)
        return have
    block(f.body, set(params(f)) | set())
    return bad
