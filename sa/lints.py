"""Syntax-tree / resolved-program rules."""


class Lint(object):
    def __init__(self, name, what, minimum=1):
        self.name, self.what, self.minimum = name, what, minimum
        self.instances = 0
        self.findings = []      # (key, text, lines)


RULES = {}    # pid -> [function(P) -> Lint]


def rule(*pids):
    def d(f):
        for p in pids:
            RULES.setdefault(p, []).append(f)
        return f
    return d


def run_for(pid, P):
    return [f(P) for f in RULES.get(pid, [])]


import ast
import os
import re
from .loader import AnchorMissing
from .resolve import Resolver, Cls, B, BUILTINS, bind_error, sig_error, own_nodes, params, bound_names, targets, unassigned_uses, lib

_RES = {}


def resolver(P):
    if id(P) not in _RES:
        _RES.clear()
        _RES[id(P)] = Resolver(P)
    return _RES[id(P)]


def analysed(P):
    """functions and modules the rules look at"""
    R = resolver(P)
    return set(f.qual for f in R.fn_list), set(R.mods)


def rel(m):
    i = m.path.find('resippy/')
    return m.path[i:] if i >= 0 else m.path


def at(m, n):
    return '%s:%d' % (rel(m), getattr(n, 'lineno', 0))


def add_finding(L, rule_, m, where, what, node, detail):
    """one finding; the key names the function and the construct, not the line"""
    key = '%s:%s:%s' % (rule_, where, re.sub(r'\s+', '_', what)[:120])
    if key not in [k for k, _, _ in L.findings]:
        L.findings.append((key, '%s: %s in %s (%s)' % (rule_, detail, where, at(m, node)), ['rule: ' + L.what, 'construct: %s' % at(m, node), 'source: ' + clip_src(node)]))


def clip_src(n):
    try:
        s = ast.unparse(n)
    except Exception:
        s = type(n).__name__
    return s if len(s) < 400 else s[:400] + ' ...'


def scopes(R):
    """(module, function or None, qualified name, nodes, namespace, local types)"""
    for name, m in sorted(R.mods.items()):
        nodes = []

        def visit(n):
            nodes.append(n)
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef,)):
                    for d in c.decorator_list + c.args.defaults + [x for x in c.args.kw_defaults if x is not None]:
                        visit(d)
                    continue
                visit(c)
        for s in m.tree.body:
            if isinstance(s, ast.FunctionDef):
                for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                    visit(d)
            else:
                visit(s)
        yield m, None, name, nodes, R.ns[name], {}
    seen = set()
    todo = list(R.fn_list)
    while todo:
        f = todo.pop(0)
        if (f.qual, f.node.lineno) in seen:
            continue
        seen.add((f.qual, f.node.lineno))
        nodes = own_nodes(f.node)
        yield f.mod, f, f.qual, nodes, R.ns_of(f), R.types_in(f)
        from .resolve import Fn
        for n in nodes:
            if isinstance(n, ast.FunctionDef):
                g = Fn(n, f.mod, None, f, f.qual + '.' + n.name)
                todo.append(g)


def module_installed(R, name):
    return name.split('.')[0] == R.pkg or name in lib().modules


@rule('P29')
def names_exist(P):
    R = resolver(P)
    L = Lint('names', 'every name read in a function is a parameter, a local that some path has assigned, an enclosing or module name, or a builtin', 3000)
    for m, f, qual, nodes, ns, types in scopes(R):
        known = set(ns) | BUILTINS | set(R.ns[m.name])
        g = f
        while g is not None:
            known |= bound_names(g.node.body) | set(params(g.node))
            g = g.parent
        if f is not None and f.cls is not None:
            known.add('__class__')
        if f is None:
            for n in nodes:
                if isinstance(n, ast.ClassDef):
                    known |= bound_names(n.body)
        comp = set()
        for n in nodes:
            if isinstance(n, ast.comprehension):
                comp |= set(targets(n.target))
            elif isinstance(n, ast.Lambda):
                comp |= set(params(n))
        for n in nodes:
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                L.instances += 1
                if n.id not in known and n.id not in comp:
                    add_finding(L, 'undefined-name', m, qual, n.id, n, 'name %s is defined nowhere' % n.id)
        if f is not None:
            for n in unassigned_uses(f.node):
                add_finding(L, 'unassigned-name', m, qual, n.id, n, 'local %s is read before any path assigns it' % n.id)
    return L


@rule('P29')
def imports_exist(P):
    R = resolver(P)
    L = Lint('imports', 'every imported module exists, and has the name imported from it', 250)
    for m, f, qual, nodes, ns, types in scopes(R):
        for n in nodes:
            if isinstance(n, ast.Import):
                for a in n.names:
                    L.instances += 1
                    if a.name.split('.')[0] == R.pkg and a.name not in R.pkgmods:
                        add_finding(L, 'missing-module', m, qual, a.name, n, 'module %s does not exist' % a.name)
            elif isinstance(n, ast.ImportFrom):
                base = R.absmod(m, n)
                for a in n.names:
                    L.instances += 1
                    if a.name == '*' or base == '__future__':
                        continue
                    if base.split('.')[0] == R.pkg and base not in R.pkgmods:
                        add_finding(L, 'missing-module', m, qual, base, n, 'module %s does not exist' % base)
                        continue
                    b = R.deref(B('from', (base, a.name)))
                    if base + '.' + a.name in R.pkgmods:
                        continue
                    if b is not None and b.kind == 'missing':
                        add_finding(L, 'missing-import', m, qual, b.val, n, '%s has no %s' % (base, a.name))
    return L


def unit_name(P, x):
    """is x a unit the registry knows (prefixes and plurals included)?"""
    own = set()
    for m in P.modules.values():
        if m.name.endswith('utils.units'):
            f = os.path.join(os.path.dirname(m.path), 'unit_defs.txt')
            if os.path.exists(f):
                with open(f) as h:
                    for line in h:
                        own.update(y.strip() for y in line.split('#')[0].split('=') if y.strip().isidentifier())
    known = lib().units | own
    for y in (x, x[:-1] if x.endswith('s') else x):
        if y in known:
            return True
        for p in lib().prefixes:
            if y.startswith(p) and y[len(p):] in known:
                return True
    return False


@rule('P29')
def attributes_exist(P):
    R = resolver(P)
    L = Lint('attributes', 'an attribute read from a module, class or instance is one that it defines; an attribute of a value of unknown type is defined by some class of the '
             'library or of its dependencies', 1500)
    every = set(lib().attrs)
    for c in R.classes.values():
        every |= c.names()
    for m in R.ns:
        every |= set(R.ns[m]) | {m.rsplit('.', 1)[-1]}
    stored = set()
    for m, f, qual, nodes, ns, types in scopes(R):
        for n in nodes:
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                stored.add(n.attr)
    every |= stored
    for m, f, qual, nodes, ns, types in scopes(R):
        guarded = set(a.value for n in nodes if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr') for a in n.args if isinstance(a, ast.Constant))
        for n in nodes:
            if not isinstance(n, ast.Attribute):
                continue
            if n.attr in guarded:
                continue
            if isinstance(n.ctx, ast.Load):
                L.instances += 1
                root = n
                while isinstance(root, ast.Attribute):
                    root = root.value
                b = R.resolve(n.value, ns) if not (isinstance(root, ast.Name) and root.id in types) else None
                if b is not None:
                    r = R.member(b, n.attr)
                    if r is not None and r.kind == 'missing':
                        add_finding(L, 'missing-attribute', m, qual, ast.unparse(n), n, '%s does not exist' % r.val)
                    if b.kind in ('mod', 'class', 'ext', 'missing'):
                        continue
                t = R.type_of(n.value, f, types) if f is not None else None
                if isinstance(t, tuple):
                    t = t[1]
                if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super' and f is not None:
                    c = f.cls if f.cls is not None else None
                    if c is not None and not c.open_ended() and not n.attr.startswith('__'):
                        have = set()
                        for k in c.mro()[1:]:
                            have |= k.names()
                        # a cooperative class may sit before another base in a subclass
                        for s in c.all_subs():
                            for k in s.mro():
                                have |= k.names()
                        if n.attr not in have:
                            add_finding(L, 'missing-attribute', m, qual, ast.unparse(n), n, 'no base class of %s has %s' % (c.qual, n.attr))
                    continue
                if isinstance(t, Cls):
                    if t.open_ended() or n.attr.startswith('__'):
                        continue
                    have = t.names()
                    for s in t.all_subs():
                        have |= s.names()
                        for k in s.mro():
                            have |= k.names()
                    if n.attr not in have:
                        add_finding(L, 'missing-attribute', m, qual, ast.unparse(n), n, '%s has no attribute %s' % (t.qual, n.attr))
                    continue
                if isinstance(root, ast.Name) and isinstance(ns.get(root.id), B) and ns[root.id].kind in ('mod', 'from') and root.id not in types:
                    if b is None and not (R.resolve(root, ns) is not None):
                        continue                     # a dependency that is not installed here
                if isinstance(n.value, ast.Name) and n.value.id in ('ureg', 'unit_registry') or isinstance(n.value, ast.Attribute) and n.value.attr == 'ureg':
                    if n.attr not in lib().attrs and not unit_name(P, n.attr):
                        add_finding(L, 'unknown-unit', m, qual, ast.unparse(n), n, 'no unit is called %s' % n.attr)
                    continue
                if f is not None and isinstance(root, ast.Name) and root.id in params(f.node) and uses_absent(R, m):
                    continue                         # may be a value of a dependency whose names are not on record
                if n.attr not in every and not n.attr.startswith('__') and not from_absent(R, n.value, ns, f, types):
                    add_finding(L, 'unknown-attribute', m, qual, ast.unparse(n), n, 'no class of the library or its dependencies has an attribute %s' % n.attr)
    return L


def uses_absent(R, m):
    return any(b.kind in ('mod', 'from') and (b.val if b.kind == 'mod' else b.val[0]).split('.')[0] in lib().absent for b in R.ns[m.name].values())


def from_absent(R, e, ns, f, types, depth=0):
    """does the value come out of a dependency whose names are not on record?"""
    if depth > 6:
        return False
    for x in ast.walk(e):
        if isinstance(x, ast.Name):
            b = ns.get(x.id)
            if b is not None and b.kind in ('mod', 'from'):
                base = b.val if b.kind == 'mod' else b.val[0]
                if base.split('.')[0] in lib().absent or not module_installed(R, base):
                    return True
            if f is not None and b is None:
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Assign) and any(x.id in set(targets(t)) for t in n.targets) and not any(isinstance(y, ast.Name) and y.id == x.id for y in ast.walk(n.value)):
                        if from_absent(R, n.value, ns, f, types, depth + 1):
                            return True
    return False


@rule('P29')
def calls_fit(P):
    R = resolver(P)
    L = Lint('calls', 'a call of a function, constructor or method of the library, or of an installed dependency, fits its parameters', 900)
    by_name = {}
    for f in R.fn_list:
        if f.cls is not None:
            by_name.setdefault(f.node.name, []).append(f)
    for m, f, qual, nodes, ns, types in scopes(R):
        for n in nodes:
            if not isinstance(n, ast.Call):
                continue
            fn = n.func
            err, what = None, None
            if isinstance(fn, ast.Name) and isinstance(types.get(fn.id), tuple):
                err, what = ctor_error(R, n, types[fn.id][1])
                L.instances += 1
            elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and f is not None and f.cls is not None:
                for k in f.cls.mro()[1:]:
                    if fn.attr in k.methods:
                        g = k.methods[fn.attr]
                        L.instances += 1
                        if not g.opaque and len(f.cls.bases) < 2:
                            err, what = bind_error(n, g.node, not g.static), g.qual
                        break
            else:
                t = None
                if isinstance(fn, ast.Attribute) and f is not None:
                    t = R.type_of(fn.value, f, types)
                viacls = isinstance(t, tuple)
                if viacls:
                    t = t[1]
                if isinstance(t, Cls):
                    g, k = t.method(fn.attr)
                    if g is not None:
                        L.instances += 1
                        if not g.opaque and not g.prop:
                            first = not g.static and not (viacls and not g.classm)
                            err, what = bind_error(n, g.node, first), g.qual
                            if err:
                                for s in t.all_subs():
                                    if fn.attr in s.methods and not bind_error(n, s.methods[fn.attr].node, not s.methods[fn.attr].static):
                                        err = None
                else:
                    b = R.resolve(fn, ns) if not (isinstance(fn, ast.Name) and fn.id in types) else None
                    if b is not None and b.kind == 'func':
                        L.instances += 1
                        if not b.val.opaque:
                            err, what = bind_error(n, b.val.node, False), b.val.qual
                    elif b is not None and b.kind == 'class':
                        L.instances += 1
                        err, what = ctor_error(R, n, b.val)
                    elif b is not None and b.kind == 'method':
                        L.instances += 1
                        g = b.val
                        if not g.opaque:
                            err, what = bind_error(n, g.node, g.classm), g.qual
                    elif b is not None and b.kind == 'ext':
                        s = lib().sigs.get(b.val)
                        if s is not None:
                            L.instances += 1
                            err, what = sig_error(n, s), b.val
                    elif isinstance(fn, ast.Attribute) and b is None and fn.attr in by_name and fn.attr not in lib().attrs:
                        L.instances += 1
                        errs = [bind_error(n, g.node, not g.static) for g in by_name[fn.attr]]
                        if all(errs) and not any(g.opaque for g in by_name[fn.attr]):
                            err, what = errs[0], by_name[fn.attr][0].qual
            if err:
                add_finding(L, 'call-mismatch', m, qual, ast.unparse(fn) + ' ' + err, n, 'call of %s: %s' % (what, err))
    return L


def ctor_error(R, n, c):
    g, k = c.method('__init__')
    if g is None:
        if c.open_ended() or '__new__' in [x for k in c.mro() for x in k.methods]:
            return None, c.qual
        return ('%d arguments for a constructor without parameters' % (len(n.args) + len(n.keywords)) if n.args or n.keywords else None), c.qual
    if g.opaque:
        return None, c.qual
    return bind_error(n, g.node, True), c.qual


# ---- P32: attributes are initialised by construction

class Init(object):
    """which attributes of an object a function has assigned on every path, and which it reads before that"""

    def __init__(self, R):
        self.R = R
        self.memo = {}
        self.open = set()           # classes whose attributes are set by computed names

    def method_sets(self, cls, f, depth=0):
        """attributes of the receiver that method f assigns on every path that returns"""
        k = (cls, f.qual, f.node.lineno)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = set()
        a = f.node.args.args
        if not a or f.static:
            return set()
        out, _ = self.run(f, {a[0].arg: cls}, {a[0].arg: set()}, depth + 1)
        self.memo[k] = out.get(a[0].arg, set()) if out is not None else set()
        return self.memo[k]

    def function_sets(self, cls, f, arg, depth=0):
        k = (cls, f.qual, f.node.lineno, arg)
        if k not in self.memo:
            self.memo[k] = set()
            out, _ = self.run(f, {arg: cls}, {arg: set()}, depth + 1)
            self.memo[k] = out.get(arg, set()) if out is not None else set()
        return self.memo[k]

    def run(self, f, objs, start, depth=0, reads=None, rets=None):
        """objs: variable -> class; start: variable -> attributes already there.  Returns the state at the end (join over all exits)"""
        exits = []
        R = self.R

        def cp(h):
            return dict((k, set(v)) for k, v in h.items())

        def join(*hs):
            hs = [h for h in hs if h is not None]
            if not hs:
                return None
            return dict((k, set.intersection(*[h.get(k, set()) for h in hs])) for k in objs)

        def expr(e, h):
            if e is None:
                return
            for c in ast.iter_child_nodes(e):
                if isinstance(c, (ast.expr, ast.keyword, ast.comprehension, ast.slice if hasattr(ast, 'slice') else ast.expr)):
                    expr(c, h)
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in objs and isinstance(e.ctx, ast.Load):
                if e.attr == '__dict__':
                    self.open.add(objs[e.value.id])
                if reads is not None and e.attr not in h[e.value.id]:
                    reads.append((e.value.id, e.attr, e))
            if isinstance(e, ast.Call):
                call(e, h)

        def call(e, h):
            fn = e.func
            if depth > 5:
                return
            passed(e, h)
            if not isinstance(fn, ast.Attribute):
                return
            v = fn.value
            if isinstance(v, ast.Name) and v.id in objs:
                g, k = objs[v.id].method(fn.attr)
                if g is not None and not g.classm and not g.static:
                    h[v.id] |= self.method_sets(objs[v.id], g, depth)
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and f.cls is not None:
                a = f.node.args.args
                if a and a[0].arg in objs:
                    mro = objs[a[0].arg].mro()
                    i = mro.index(f.cls) if f.cls in mro else 0
                    for k in mro[i + 1:]:
                        if fn.attr in k.methods:
                            h[a[0].arg] |= self.method_sets(objs[a[0].arg], k.methods[fn.attr], depth)
                            break
            else:
                b = R.resolve(v, R.ns_of(f))
                if b is not None and b.kind == 'class' and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id in objs:
                    g, k = b.val.method(fn.attr)
                    if g is not None and not g.static and not g.classm:
                        h[e.args[0].id] |= self.method_sets(objs[e.args[0].id], g, depth)

        def passed(e, h):
            """the object is handed to a function, which may assign its attributes"""
            for i, x in enumerate(e.args):
                if not (isinstance(x, ast.Name) and x.id in objs):
                    continue
                b = R.resolve(e.func, R.ns_of(f)) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
                if b is not None and b.kind == 'func':
                    a = b.val.node.args.args
                    if i < len(a):
                        h[x.id] |= self.function_sets(objs[x.id], b.val, a[i].arg, depth)
                elif isinstance(e.func, ast.Name) and e.func.id == 'setattr' and i == 0 and len(e.args) > 1:
                    if isinstance(e.args[1], ast.Constant):
                        h[x.id].add(e.args[1].value)
                    else:
                        self.open.add(objs[x.id])

        def store(t, h):
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in objs:
                g, k = objs[t.value.id].method(t.attr)
                h[t.value.id].add(t.attr)
                if g is not None and g.prop:
                    for m in k.node.body:
                        if isinstance(m, ast.FunctionDef) and m.name == t.attr and any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in m.decorator_list):
                            from .resolve import Fn
                            h[t.value.id] |= self.method_sets(objs[t.value.id], Fn(m, k.mod, k, None, k.qual + '.' + m.name), depth)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    store(x, h)
            elif isinstance(t, ast.Name) and t.id in objs:
                pass
            else:
                expr(t, h)

        def block(body, h):
            for s in body:
                if h is None:
                    return None
                h = stmt(s, h)
            return h

        def stmt(s, h):
            if isinstance(s, ast.Assign):
                expr(s.value, h)
                for t in s.targets:
                    store(t, h)
            elif isinstance(s, ast.AugAssign):
                expr(s.value, h)
                if isinstance(s.target, ast.Attribute) and isinstance(s.target.value, ast.Name) and s.target.value.id in objs and reads is not None \
                        and s.target.attr not in h[s.target.value.id]:
                    reads.append((s.target.value.id, s.target.attr, s.target))
                store(s.target, h)
            elif isinstance(s, ast.AnnAssign):
                expr(s.value, h)
                if s.value is not None:
                    store(s.target, h)
            elif isinstance(s, ast.If):
                expr(s.test, h)
                return join(block(s.body, cp(h)), block(s.orelse, cp(h)))
            elif isinstance(s, (ast.For, ast.While)):
                expr(s.iter if isinstance(s, ast.For) else s.test, h)
                block(s.body, cp(h))
                n = s.iter if isinstance(s, ast.For) else None
                if isinstance(s, ast.For) and isinstance(n, (ast.Tuple, ast.List)) and n.elts or isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
                    h2 = block(s.body, cp(h))
                    return h2 if h2 is not None else h
                return h
            elif isinstance(s, ast.With):
                for i in s.items:
                    expr(i.context_expr, h)
                return block(s.body, h)
            elif isinstance(s, ast.Try):
                a = block(s.body, cp(h))
                a = block(s.orelse, a) if a is not None else None
                r = join(*([a] + [block(x.body, cp(h)) for x in s.handlers]))
                if s.finalbody:
                    fin = block(s.finalbody, cp(h))
                    if r is not None and fin is not None:
                        r = dict((k, r[k] | fin[k]) for k in r)
                return r
            elif isinstance(s, ast.Return):
                expr(s.value, h)
                if rets is not None:
                    rets.append((s, cp(h)))
                exits.append(cp(h))
                return None
            elif isinstance(s, ast.Raise):
                return None
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                return h
            elif isinstance(s, (ast.Break, ast.Continue)):
                return h
            else:
                for c in ast.iter_child_nodes(s):
                    if isinstance(c, ast.expr):
                        expr(c, h)
            return h
        h = block(f.node.body, dict((k, set(start.get(k, ()))) for k in objs))
        if h is not None:
            exits.append(h)
        return (join(*exits) if exits else None), None


def abstract_class(c):
    for k in c.mro():
        pass
    names = {}
    for k in reversed(c.mro()):
        for n, g in k.methods.items():
            names[n] = g
    return any('abstractmethod' in g.deco or 'abstractproperty' in g.deco for g in names.values())


@rule('P32')
def initialised(P):
    R = resolver(P)
    I = Init(R)
    L = Lint('initialised', 'every attribute that a method of a concrete class reads from its object is assigned by its constructor on every path, or by every factory that '
             'constructs and returns the object', 400)
    # factories: functions that make an instance, keep it in a variable and return it
    fac = {}
    for f in R.fn_list:
        if f.node.name == '__init__':
            continue
        env = R.types_in(f)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and isinstance(env.get(n.targets[0].id), Cls):
                c = env[n.targets[0].id]
                fn = n.value.func
                b = R.resolve(fn, R.ns_of(f))
                direct = isinstance(fn, ast.Name) and isinstance(env.get(fn.id), tuple) or b is not None and b.kind == 'class'
                v = n.targets[0].id
                if direct and any(isinstance(r, ast.Return) and isinstance(r.value, ast.Name) and r.value.id == v for r in own_nodes(f.node)):
                    cs = [c]
                    if isinstance(fn, ast.Name) and isinstance(env.get(fn.id), tuple):
                        cs = [c] + c.all_subs()
                    for k in cs:
                        fac.setdefault(k, []).append((f, v))
    done = set()
    for q, c in sorted(R.classes.items()):
        if c.open_ended():
            continue
        if abstract_class(c) and c.all_subs():
            continue
        base = set()
        for k in c.mro():
            base |= set(k.methods) | k.attrs
        g, k = c.method('__init__')
        inits = set()
        if g is not None:
            a = g.node.args.args
            reads = []
            out, _ = I.run(g, {a[0].arg: c}, {a[0].arg: set()}, 0, reads)
            inits = out.get(a[0].arg, set()) if out is not None else set()
            for v, attr, node in reads:
                L.instances += 1
                if attr not in base and (c.qual, attr, 'init') not in done:
                    done.add((c.qual, attr, 'init'))
                    add_finding(L, 'read-before-init', g.mod, g.qual, attr, node, 'constructor of %s reads self.%s before it is assigned' % (c.qual, attr))
        if any(k in I.open for k in c.mro()):
            continue
        # what every factory leaves assigned
        made = []
        for f, v in fac.get(c, []):
            rets = []
            I.run(f, {v: c}, {v: set(inits)}, 0, None, rets)
            st = [h[v] for s, h in rets if isinstance(s.value, ast.Name) and s.value.id == v]
            if st:
                made.append((f, set.intersection(*st)))
        overall = set()                              # a public constructor must leave a usable object by itself
        for k in c.mro():
            for n, m in sorted(k.methods.items()):
                if n == '__init__' or c.method(n)[0] is not m or m.static or m.classm:
                    continue
                a = m.node.args.args
                if not a:
                    continue
                reads = []
                I.run(m, {a[0].arg: c}, {a[0].arg: set()}, 0, reads)
                skip = set(x.value for z in own_nodes(m.node) if isinstance(z, ast.Call) and isinstance(z.func, ast.Name) and z.func.id in ('hasattr', 'getattr') for x in z.args if isinstance(x, ast.Constant))
                for v, attr, node in reads:
                    L.instances += 1
                    if attr in base or attr in inits or attr in overall or attr in skip or attr.startswith('__'):
                        continue
                    key = (k.qual, attr)
                    if key in done:
                        continue
                    done.add(key)
                    lack = [f.qual for f, s in made if attr not in s]
                    why = 'the constructor never assigns it' + (', nor does ' + ', '.join(lack[:3]) if lack else '')
                    add_finding(L, 'uninitialised', m.mod, c.qual, attr, node, '%s reads self.%s but %s' % (m.qual, attr, why))
    return L


# ---- P33: file access

READ_FUNCS = {'numpy.fromfile': 0, 'numpy.load': 0, 'numpy.loadtxt': 0, 'numpy.genfromtxt': 0, 'imageio.imread': 0, 'PIL.Image.open': 0, 'matplotlib.pyplot.imread': 0, 'skimage.io.imread': 0,
              'cv2.imread': 0, 'os.listdir': 0, 'glob.glob': 0, 'os.path.exists': None}
WRITE_FUNCS = {'numpy.save': 0, 'numpy.savetxt': 0, 'numpy.savez': 0, 'imageio.imsave': 0, 'imageio.imwrite': 0, 'imageio.v2.imwrite': 0, 'matplotlib.pyplot.imsave': 0,
               'matplotlib.pyplot.savefig': 0, 'gdal.Warp': 0, 'gdal.Translate': 0, 'gdal.Grid': 0, 'gdal.BuildVRT': 0, 'osgeo.gdal.Warp': 0, 'osgeo.gdal.Translate': 0,
               'osgeo.gdal.Grid': 0, 'osgeo.gdal.BuildVRT': 0, 'gdal2tiles.generate_tiles': 1, 'os.makedirs': 0, 'os.mkdir': 0, 'shutil.copy': 1, 'shutil.copyfile': 1, 'shutil.copy2': 1}
REMOVE_FUNCS = {'os.remove': 0, 'os.unlink': 0, 'os.rmdir': 0, 'os.removedirs': 0, 'shutil.rmtree': 0, 'os.rename': 0, 'os.replace': 0, 'shutil.move': 0, 'os.truncate': 0,
                'gdal.Unlink': 0, 'osgeo.gdal.Unlink': 0}
WRITE_METHODS = {'tofile': 0, 'save': 0, 'Create': 0, 'CreateCopy': 0, 'CreateDataSource': 0, 'savefig': 0, 'dump': None, 'to_csv': 0, 'write_text': -1, 'write_bytes': -1}
REMOVE_METHODS = {'unlink': -1, 'rmdir': -1, 'Delete': 0, 'DeleteDataSource': 0}
PATHISH = {'basename', 'len', 'isdir', 'exists', 'isfile', 'GetExtension'}

# public functions that write files: the parameters that say where (every other function writes nothing)
WRITERS = {
    'write_envi_image': ('output_fname', 'output_header_fname'), 'write_envi_header': ('output_fname', 'header_fname', 1), 'write_text_list_to_file': ('output_fname', 1),
    'make_dir_if_not_exists': ('dir_to_create', 0), 'write_chips_to_disk': ('output_dir', 1), 'write_to_disk': ('fname', 0), 'create_map_tiles': ('out_dir', 0),
    'train_model': ('output_dir', 'model_output_fname'), 'gdalwarp_geotiff_image': ('dst_fname',), 'reproject_vertical_datum': ('dst_fname',),
    'convert_reference': ('dst_fname',), 'convert_to_ellipsoid_heights': ('dst_fname',), 'convert_to_geoid_heights': ('dst_fname',),
    'from_numpy_and_pix4d': ('working_dir',), 'create_ortho_gtiff_image_world_to_sensor': ('output_fname',), 'gdal_grid_image_band': ('output_fname',),
    'create_ortho_gtiff_image_world_to_sensor_backup': ('output_fname',),
}


class Access(object):
    """which parameters a function reads, writes or removes as files, through everything it calls"""

    def __init__(self, R):
        self.R = R
        self.sum = {}
        self.fns = {}
        self.called = set()         # functions with a resolved caller: what they do is judged there
        for m, f, qual, nodes, ns, types in scopes(R):
            if f is not None:
                self.fns[f.qual] = (f, nodes, ns, types)
        for r in range(6):
            changed = False
            for q in self.fns:
                s = self.summary(q)
                if s != self.sum.get(q):
                    self.sum[q] = s
                    changed = True
            if not changed:
                break

    def origins(self, e, f, nodes, depth=0, exact=True):
        """parameters (and self attributes) the value is (exact) or is made from"""
        if depth > 8:
            return set()
        if isinstance(e, ast.Name):
            if e.id in params(f.node):
                # a parameter that is only replaced when it is None keeps its own value
                out = {e.id}
            else:
                out = set()
            for n in nodes:
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                    if not any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(n.value)) or not exact:
                        out |= self.origins(n.value, f, nodes, depth + 1, exact)
                elif isinstance(n, (ast.For, ast.comprehension)) and e.id in set(targets(n.target)):
                    if not exact:
                        out |= self.origins(n.iter, f, nodes, depth + 1, False)
                elif isinstance(n, ast.withitem) and n.optional_vars is not None and e.id in set(targets(n.optional_vars)) and not exact:
                    out |= self.origins(n.context_expr, f, nodes, depth + 1, False)
            return out
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and f.cls is not None and f.node.args.args and e.value.id == f.node.args.args[0].arg:
                return {'self.' + e.attr}
            return set() if exact else self.origins(e.value, f, nodes, depth + 1, False)
        if isinstance(e, ast.IfExp):
            return self.origins(e.body, f, nodes, depth + 1, exact) | self.origins(e.orelse, f, nodes, depth + 1, exact)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.origins(v, f, nodes, depth + 1, exact) for v in e.values])
        if isinstance(e, ast.Call):
            n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ''
            if exact:
                if n in ('abspath', 'normpath', 'realpath', 'expanduser', 'str', 'fspath', 'Path') and e.args:
                    return self.origins(e.args[0], f, nodes, depth + 1, True)
                return set()
            if n in PATHISH:
                return set()
        if exact:
            return set()
        out = set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= self.origins(c, f, nodes, depth + 1, False)
            elif isinstance(c, ast.keyword):
                out |= self.origins(c.value, f, nodes, depth + 1, False)
            elif isinstance(c, ast.comprehension):
                out |= self.origins(c.iter, f, nodes, depth + 1, False)
        return out

    def sinks(self, q):
        """(kind, path expression, call node) of one function"""
        f, nodes, ns, types = self.fns[q]
        for n in nodes:
            if not isinstance(n, ast.Call):
                continue
            fn = n.func
            arg = lambda k: n.args[k] if k is not None and 0 <= k < len(n.args) and not isinstance(n.args[k], ast.Starred) else None
            if isinstance(fn, ast.Name) and fn.id == 'open' and 'open' not in ns:
                k = open_kind(n)
                yield k, arg(0), n
                continue
            name = dotted(self.R, fn, ns)
            if name in ('gdal.Open', 'osgeo.gdal.Open', 'gdal.OpenEx', 'osgeo.gdal.OpenEx'):
                flag = n.args[1] if len(n.args) > 1 else None
                upd = flag is not None and (isinstance(flag, ast.Constant) and flag.value not in (0, False) or isinstance(flag, ast.Attribute) and 'pdate' in flag.attr or isinstance(flag, ast.Attribute) and flag.attr == 'OF_UPDATE')
                yield 'write' if upd else 'read', arg(0), n
            elif name in READ_FUNCS:
                if READ_FUNCS[name] is not None:
                    yield 'read', arg(READ_FUNCS[name]), n
            elif name in WRITE_FUNCS:
                yield 'write', arg(WRITE_FUNCS[name]), n
                if name == 'gdal2tiles.generate_tiles':
                    yield 'read', arg(0), n
            elif name in REMOVE_FUNCS:
                yield 'remove', arg(REMOVE_FUNCS[name]), n
            elif isinstance(fn, ast.Attribute) and name is None:
                b = self.R.resolve(fn.value, ns)
                t = self.R.type_of(fn.value, f, types)
                if b is not None and b.kind in ('mod', 'class', 'ext') or isinstance(t, (Cls, tuple)):
                    continue
                if fn.attr in WRITE_METHODS:
                    k = WRITE_METHODS[fn.attr]
                    yield 'write', fn.value if k == -1 else arg(k), n
                elif fn.attr in REMOVE_METHODS:
                    k = REMOVE_METHODS[fn.attr]
                    yield 'remove', fn.value if k == -1 else arg(k), n

    def callee(self, n, f, ns, types):
        """(summary owner, parameter names in call order, receiver expression) of a call of a library function"""
        fn = n.func
        R = self.R
        if isinstance(fn, ast.Name) and isinstance(types.get(fn.id), tuple):
            g, k = types[fn.id][1].method('__init__')
            return (g, True, None) if g is not None else None
        if isinstance(fn, ast.Attribute):
            t = R.type_of(fn.value, f, types)
            via = isinstance(t, tuple)
            t = t[1] if via else t
            if isinstance(t, Cls):
                g, k = t.method(fn.attr)
                if g is None:
                    return None
                return g, not g.static and not (via and not g.classm), fn.value if not via else None
        b = R.resolve(fn, ns) if not (isinstance(fn, ast.Name) and fn.id in types) else None
        if b is None:
            return None
        if b.kind == 'func':
            return b.val, False, None
        if b.kind == 'method':
            return b.val, b.val.classm, None
        if b.kind == 'class':
            g, k = b.val.method('__init__')
            return (g, True, None) if g is not None else None
        return None

    def summary(self, q):
        f, nodes, ns, types = self.fns[q]
        out = set()
        for kind, e, n in self.sinks(q):
            if e is None:
                out.add((kind, '?', False))
                continue
            ex = self.origins(e, f, nodes)
            de = self.origins(e, f, nodes, 0, False)
            for p in ex:
                out.add((kind, p, True))
            for p in de - ex:
                out.add((kind, p, False))
            if not ex and not de:
                out.add((kind, '', False))
        for n in nodes:
            if not isinstance(n, ast.Call):
                continue
            c = self.callee(n, f, ns, types)
            if c is None:
                continue
            g, drop, recv = c
            self.called.add(g.qual)
            s = self.sum.get(g.qual)
            if not s:
                continue
            names = [x.arg for x in g.node.args.args]
            if drop:
                names = names[1:]
            m = {}
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Starred):
                    break
                if i < len(names):
                    m[names[i]] = a
            for k in n.keywords:
                if k.arg:
                    m[k.arg] = k.value
            for kind, p, exact in s:
                if p.startswith('self.'):
                    if recv is not None and isinstance(recv, ast.Name) and f.node.args.args and recv.id == f.node.args.args[0].arg and f.cls is not None:
                        out.add((kind, p, exact))
                    else:
                        out.add((kind, '', False))
                    continue
                if p in m:
                    ex = self.origins(m[p], f, nodes) if exact else set()
                    de = self.origins(m[p], f, nodes, 0, False)
                    for x in ex:
                        out.add((kind, x, True))
                    for x in de - ex:
                        out.add((kind, x, False))
                    if not ex and not de:
                        out.add((kind, '', False))
                else:
                    out.add((kind, '', False))
        return out


def dotted(R, fn, ns):
    b = R.resolve(fn, ns)
    if b is not None:
        return b.val if b.kind in ('ext', 'missing') else None
    # a member of a dependency that is not installed here
    parts = []
    e = fn
    while isinstance(e, ast.Attribute):
        parts.insert(0, e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        b = ns.get(e.id)
        if b is not None and b.kind == 'mod':
            return '.'.join([b.val] + parts)
        if b is not None and b.kind == 'from':
            return '.'.join([b.val[0], b.val[1]] + parts)
    return None


def open_kind(n):
    mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
    if mode is None:
        return 'read'
    if isinstance(mode, ast.Constant) and isinstance(mode.value, str):
        return 'write' if any(ch in mode.value for ch in 'wax+') else 'read'
    return 'unknown'


def access(P):
    R = resolver(P)
    if not hasattr(R, 'access'):
        R.access = Access(R)
    return R.access


@rule('P33')
def handles_released(P):
    R = resolver(P)
    L = Lint('handles', 'every file handle is the subject of a with statement, or is closed on every path including the exceptional ones', 15)
    for m, f, qual, nodes, ns, types in scopes(R):
        managed, closing, given = set(), set(), set()
        for n in nodes:
            if isinstance(n, ast.withitem):
                e = n.context_expr
                managed.add(id(e))
                if isinstance(e, ast.Call):
                    for a in e.args:
                        managed.add(id(a))                 # contextlib.closing(open(...)), stack.enter_context(open(...))
                if isinstance(e, ast.Name):
                    closing.add(e.id)
            elif isinstance(n, ast.Try):
                for s in n.finalbody:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'close' and isinstance(x.func.value, ast.Name):
                            closing.add(x.func.value.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'enter_context':
                for a in n.args:
                    managed.add(id(a))
            elif isinstance(n, ast.Return) and n.value is not None:
                given.add(id(n.value))                     # handed to the caller
        for n in nodes:
            if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == 'open' and 'open' not in ns or dotted(R, n.func, ns) in ('io.open', 'codecs.open')):
                L.instances += 1
                if id(n) in managed or id(n) in given:
                    continue
                asg = [a for a in nodes if isinstance(a, ast.Assign) and a.value is n and isinstance(a.targets[0], ast.Name)]
                if asg and asg[0].targets[0].id in closing:
                    continue
                if asg and any(isinstance(r, ast.Return) and isinstance(r.value, ast.Name) and r.value.id == asg[0].targets[0].id for r in nodes):
                    continue
                add_finding(L, 'open-handle', m, qual, ast.unparse(n), n, 'the handle is not closed on every path')
    return L


@rule('P33')
def files_written(P):
    A = access(P)
    L = Lint('destinations', 'a parameter that names a file to read is never opened for writing or removed, directly or through a call; files are written only to the '
             'parameters documented as destinations, and nothing is deleted or renamed', 60)
    for q in sorted(A.fns):
        f = A.fns[q][0]
        name = f.node.name
        s = A.sum.get(q, set())
        L.instances += len(s)
        reads = set(p for k, p, e in s if k == 'read' and e and p)
        pos = [x.arg for x in f.node.args.args]
        if f.cls is not None and not f.static:
            pos = pos[1:]
        ok = set()
        for w in WRITERS.get(name, ()):
            ok.add(w if isinstance(w, str) else pos[w] if w < len(pos) else '')
        wr = [(p, e) for k, p, e in s if k in ('write', 'unknown')]
        to_ok = any(p in ok for p, e in wr)
        for k, p, e in sorted(s):
            if k == 'remove' and p not in ('', '?') and (judged(name, f) or e and p in reads):
                add_finding(L, 'removes', f.mod, q, p, f.node, 'the file or directory named by %s is removed or renamed' % p)
            if k == 'read' and e and p in ok and not wr:
                add_finding(L, 'not-written', f.mod, q, p, f.node, 'the destination %s is opened for reading, and nothing is written' % p)
            if k not in ('write', 'unknown') or p in ('', '?') or p in ok:
                continue
            if p in reads and e and not (name.startswith('_') and q in A.called):
                add_finding(L, 'overwrites-input', f.mod, q, p, f.node, '%s is both read and opened for writing' % p)
            elif e and judged(name, f):
                add_finding(L, 'writes', f.mod, q, p, f.node, 'a file named by %s is opened for writing' % p)
            elif not e and judged(name, f) and not to_ok and not any(x.startswith('self.') for x, _ in wr):
                add_finding(L, 'writes', f.mod, q, p, f.node, 'a file whose name is made from %s is opened for writing' % p)
    return L


READER_NAME = re.compile(r'^(read|get|load|from|init_from|parse|make_master|is_|find|chip_entire|chip_images|create_ortho|create_full|envi_|numpy_|score|chip_and|mean|ace|rx|sam)')


def judged(name, f):
    """functions whose name says that they produce values, not files"""
    return bool(READER_NAME.match(name)) or name in WRITERS


# ---------------------------------------------------------------- P25: the unit definitions

# name -> (factor to SI, exponents of metre, kilogram, second, steradian)
BASE_UNITS = {'meter': (1, (1, 0, 0, 0)), 'm': (1, (1, 0, 0, 0)), 'watt': (1, (2, 1, -3, 0)), 'W': (1, (2, 1, -3, 0)), 'steradian': (1, (0, 0, 0, 1)), 'sr': (1, (0, 0, 0, 1)),
              'second': (1, (0, 0, 1, 0)), 's': (1, (0, 0, 1, 0)), 'joule': (1, (2, 1, -2, 0)), 'radian': (1, (0, 0, 0, 0)), 'kilogram': (1, (0, 1, 0, 0)),
              'gram': ('1/1000', (0, 1, 0, 0))}
LONG = {'kilo': 3, 'centi': -2, 'milli': -3, 'micro': -6, 'nano': -9, 'deci': -1, 'mega': 6}
SHORT = {'k': 3, 'c': -2, 'm': -3, 'u': -6, 'n': -9, 'd': -1}
WANTED_UNITS = {'micron': '1e-6 meter', 'flick': '1e10 watt / meter**3 / steradian', 'reflectance_zero_to_one': '1'}


def unit_value(text, defs, depth=0):
    """(factor, dimensions) of a unit expression, None if it is not one"""
    from fractions import Fraction as F
    if depth > 8:
        return None

    def named(n):
        n = {'metre': 'meter', 'micrometre': 'micrometer'}.get(n, n)
        if n in defs:
            return unit_value(defs[n], defs, depth + 1)
        for pre, short in (('', False), ('s', False)):
            b = n[:-1] if pre == 's' and n.endswith('s') and len(n) > 3 else n
            if b in BASE_UNITS:
                return F(BASE_UNITS[b][0]), BASE_UNITS[b][1]
            for table, names in ((LONG, lambda z: len(z) > 2), (SHORT, lambda z: len(z) <= 2)):
                for p in table:
                    if b.startswith(p) and b[len(p):] in BASE_UNITS and names(b[len(p):]):
                        v = BASE_UNITS[b[len(p):]]
                        return F(v[0]) * F(10) ** table[p], v[1]
        return None

    def ev(n):
        if isinstance(n, ast.Expression):
            return ev(n.body)
        if isinstance(n, ast.Name):
            return named(n.id)
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            return F(repr(n.value)), (0, 0, 0, 0)
        if isinstance(n, ast.List) and not n.elts:
            return F(1), (0, 0, 0, 0)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            v = ev(n.operand)
            return v and (-v[0], v[1])
        if isinstance(n, ast.BinOp):
            a, b = ev(n.left), ev(n.right)
            if a is None or b is None:
                return None
            if isinstance(n.op, ast.Mult):
                return a[0] * b[0], tuple(x + y for x, y in zip(a[1], b[1]))
            if isinstance(n.op, ast.Div):
                return a[0] / b[0], tuple(x - y for x, y in zip(a[1], b[1]))
            if isinstance(n.op, ast.Pow) and not any(b[1]) and b[0].denominator == 1:
                k = int(b[0])
                return a[0] ** k, tuple(x * k for x in a[1])
        return None
    text = re.sub(r'(\d)\s+([A-Za-z])', r'\1 * \2', text.strip().replace('^', '**'))
    try:
        return ev(ast.parse(text, mode='eval'))
    except SyntaxError:
        return None


@rule('P25')
def unit_definitions(P):
    L = Lint('unit-definitions', 'the units the library adds to its registry have their physical meaning: micron is 1e-6 m, flick is 1 W/cm^2/sr/um, reflectance is dimensionless', 3)
    m = P.modules.get('resippy.utils.units')
    if m is None:
        raise AnchorMissing('resippy.utils.units')
    texts = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            p = os.path.join(os.path.dirname(m.path), n.value)
            if n.value.endswith('.txt') and os.path.isfile(p):
                texts.update((i + 1, l) for i, l in enumerate(open(p)))
            elif '=' in n.value:
                texts.update((i + 1, l) for i, l in enumerate(n.value.split('\n')))
    defs, lines = {}, {}
    for i, l in texts.items():
        l = l.split('#')[0].strip()
        if '=' in l and not l.startswith('@'):
            k, v = l.split('=')[:2]
            defs[k.strip()], lines[k.strip()] = v, i
    for k in sorted(WANTED_UNITS):
        if k not in defs:
            L.instances += 1
            if k != 'micron':                # pint has it too
                for o in P.modules.values():
                    for n in ast.walk(o.tree):
                        if o.name.startswith('resippy') and isinstance(n, ast.Attribute) and n.attr == k and isinstance(n.value, ast.Name) and n.value.id == 'ureg':
                            add_finding(L, 'unit-undefined', o, o.name, k, n, 'the unit %s is used and not defined' % k)
            continue
        L.instances += 1
        got, want = unit_value(defs[k], defs), unit_value(WANTED_UNITS[k], {})
        if got is not None and got != want:
            add_finding(L, 'unit-definition', m, 'resippy.utils.units', '%s =%s' % (k, defs[k].rstrip()), m.tree.body[0], 'the unit %s is defined as %s, not as %s' % (k, defs[k].strip(), WANTED_UNITS[k]))
    return L


def remembered(P, reached=None):
    """answers kept for later calls; reached: only in these functions"""
    from . import stale
    R = resolver(P)
    L = Lint('remembered', 'a value kept for later calls depends only on what its key or test determines, and every function that changes what it was computed from clears it', 80 if reached is None else 0)
    n, found = stale.findings(R)
    L.instances = n if reached is None else len(reached)
    for f, w, node, why in found:
        if reached is None or f.qual in reached:
            add_finding(L, 'stale', f.mod, f.qual, w[1], node, 'the remembered value %s %s' % (w[1], why))
    return L


def collected(P, reached=None):
    """objects put into a collection by a loop; reached: only in these functions"""
    from . import collect
    R = resolver(P)
    L = Lint('collected', 'an object that a loop puts into a collection and writes into is another object on every turn', 12 if reached is None else 0)
    classes = set(c.name for m in R.mods.values() for c in ast.walk(m.tree) if isinstance(c, ast.ClassDef))
    for f in R.fn_list:
        if reached is not None and f.qual not in reached:
            continue
        k, found = collect.findings(f.node, classes)
        L.instances += k
        for name, n, w, loop in found:
            add_finding(L, 'shared', f.mod, f.qual, name, n, 'every turn of the loop at line %d puts the same object in, while the loop changes it (%s)' % (loop.lineno, clip_src(w)))
    return L


def widths(P, reached=None):
    """pixel arithmetic in the pixels' own type; reached: only in these functions"""
    from . import width
    A = width.findings(resolver(P))
    L = Lint('widths', 'numbers that have the type of the input pixels are not added, subtracted or multiplied with each other before conversion, and no '
                       'floating-point result is stored in an array of that type', 350 if reached is None else 0)
    L.instances = len(A.ops if reached is None else [o for o in A.ops if o[0] in reached])
    for f, node, rule_, what, detail in A.found.values():
        if reached is None or f.qual in reached:
            add_finding(L, rule_, f.mod, f.qual, what, node, detail)
    return L


@rule('P42')
def pixel_widths(P):
    return widths(P)


@rule('P41')
def collected_objects(P):
    return collected(P)


@rule('P41')
def remembered_answers(P):
    return remembered(P)


MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'fill', 'update', 'setdefault', 'popitem', 'resize', 'itemset'}


def writes_to(P, m, name):
    """arguments of the call under study that the called function itself writes into, its parameter never bound to anything else:
    (argument, text of the writing construct, place)"""
    R = resolver(P)
    alias = {}
    fn = None
    for n in m.tree.body:
        if isinstance(n, ast.Import):
            for a in n.names:
                alias[a.asname or a.name] = a.name
        elif isinstance(n, ast.ImportFrom) and n.module:
            for a in n.names:
                alias[a.asname or a.name] = n.module + '.' + a.name
        elif isinstance(n, ast.FunctionDef) and n.name == name:
            fn = n
    out = []
    if fn is None:
        return out
    given = set(params(fn)) - set(x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
    for c in ast.walk(fn):
        if not isinstance(c, ast.Call):
            continue
        head, _, tail = ast.unparse(c.func).partition('.')
        qual = alias.get(head, head) + ('.' + tail if tail else '')
        f = next((g for g in R.fn_list if g.qual == qual), None)
        if f is None or any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
            continue
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        if f.cls is not None and not f.static:
            names = names[1:]
        pairs = list(zip(names, c.args)) + [(k.arg, k.value) for k in c.keywords]
        nodes = own_nodes(f.node)
        bound = set(x.id for x in nodes if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
        for p, a in pairs:
            if not isinstance(a, ast.Name) or a.id not in given or p in bound:
                continue
            for x in nodes:
                hit = isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Name) and x.func.value.id == p
                hit = hit or isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == p
                if hit:
                    out.append((a.id, ast.unparse(x), '%s:%d in %s' % (rel(f.mod), x.lineno, f.qual)))
                    break
    return out
