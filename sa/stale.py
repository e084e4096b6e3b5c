"""Remembered values: an answer stored for later use must not outlive, or be confused with, what it was computed from.

A *remembered location* is a place written by a function at call time and tested by the same function before the write: an attribute of
self, an entry of a container kept in an attribute, a class attribute, a module-level container, a default argument, or a memoising decorator.
For each one the rule computes, by a backward closure over assignments (helper methods included),
  - what the remembered value depends on: parameters, attributes of self, files;
  - what the test or the key determines: the names that enter it unchanged.
The location is stale when
  - the value depends on a parameter which the test or key does not determine (another call gets the first call's answer), or
  - it depends on an attribute that another method assigns or modifies without writing or clearing the location, or
  - it is shared between objects and depends on an attribute that the key does not determine, or on the contents of a file."""
import ast
from .resolve import own_nodes, params, targets, bound_names

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'add', 'discard', 'sort', 'reverse', 'setdefault', 'fill', 'popitem', 'resize', 'itemset', 'put'}
KEEPS = {'tobytes', 'tostring', 'tuple', 'list', 'repr', 'str', 'float', 'asarray', 'array', 'frozenset', 'items', 'sorted', 'tolist', 'map', 'format', 'abspath',
         'realpath', 'ascontiguousarray', 'bytes', 'copy', 'ravel', 'flatten', 'asanyarray', 'isoformat', 'lower', 'zip', 'dumps', 'join'}
SAME = {'array_equal', 'allclose', 'equal', 'all', 'any', 'isinstance', 'array_equiv', 'bool', 'len', 'not_', 'is_'}
IO = {'open', 'fromfile', 'loadtxt', 'genfromtxt', 'imread', 'Open', 'listdir', 'read_csv', 'memmap', 'load', 'exists', 'getmtime', 'glob', 'walk', 'isfile', 'ReadAsArray', 'OpenEx'}
MEMO = {'lru_cache', 'cache', 'memoize', 'memoized', 'cached'}


def self_name(f):
    a = f.node.args
    a = getattr(a, 'posonlyargs', []) + a.args
    return a[0].arg if f.cls is not None and a and not f.static and not f.classm else None


def cls_name(f):
    a = f.node.args.args
    return a[0].arg if f.cls is not None and a and f.classm else None


def class_level(c, attr):
    """attr is a class variable of c that no instance replaces"""
    return any(attr in k.attrs for k in c.mro()) and not any(attr in k.self_attrs for k in c.mro() + c.all_subs())


class Stale(object):
    def __init__(self, R):
        self.R = R
        self.reads_memo = {}
        self.io_memo = {}
        self.instances = 0
        self.fns = []
        self.writers = {}      # class -> {attr: [functions assigning or modifying it]}
        seen = set()
        for f in R.fn_list:
            if (f.qual, f.node.lineno) not in seen:
                seen.add((f.qual, f.node.lineno))
                self.fns.append(f)
        self.outside = {}      # attr -> [functions assigning it on an object they did not make]
        self.mod_containers = {}
        for name, m in R.mods.items():
            s = set()
            for st in m.tree.body:
                if isinstance(st, (ast.Assign, ast.AnnAssign)):
                    for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                        s |= set(targets(t))
            self.mod_containers[name] = s
        for f in self.fns:
            self.scan_writes(f)

    # ---- writes
    def locs_written(self, f):
        """[(location, node, key expr or None, value expr or None)]: ('self', a), ('class', a), ('mod', n), ('default', p)"""
        out = []
        sn, cn = self_name(f), cls_name(f)
        loc = bound_names(f.node.body) | set(params(f.node))
        glob = set(x for s in ast.walk(f.node) if isinstance(s, ast.Global) for x in s.names)
        loc -= glob
        mutdef = {}
        a = f.node.args
        ps = getattr(a, 'posonlyargs', []) + a.args
        for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if isinstance(d, (ast.Dict, ast.List, ast.Set)) or isinstance(d, ast.Call):
                mutdef[p.arg] = 1

        alias = {}
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.Attribute, ast.Name)):
                alias.setdefault(n.targets[0].id, []).append(n.value)

        def where(e, depth=0):
            """location an expression denotes"""
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
                v = e.value.id
                if v == sn:
                    return ('class', e.attr) if f.cls and class_level(f.cls, e.attr) else ('self', e.attr)
                if v == cn:
                    return ('class', e.attr)
                if f.cls and v == f.cls.name and v not in loc:
                    return ('class', e.attr)
                if v not in loc and v == f.node.name:
                    return ('mod', v + '.' + e.attr)
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == 'type' and sn:
                return ('class', e.attr)
            if isinstance(e, ast.Attribute) and e.attr != '__class__' and isinstance(e.value, ast.Attribute) and e.value.attr == '__class__':
                return ('class', e.attr)
            if isinstance(e, ast.Name):
                if e.id in mutdef:
                    return ('default', e.id)
                if e.id not in loc and e.id in self.mod_containers.get(f.mod.name, ()):
                    return ('mod', e.id)
                if e.id in alias and depth < 3 and len(alias[e.id]) == 1:
                    w = where(alias[e.id][0], depth + 1)
                    return w
            return None
        for n in own_nodes(f.node):
            ts, val = [], None
            if isinstance(n, ast.Assign):
                ts, val = n.targets, n.value
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                ts, val = [n.target], n.value
            elif isinstance(n, ast.Delete):
                ts = n.targets
            for t in ts:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    k = None
                    deep = False
                    while isinstance(x, (ast.Subscript, ast.Starred)):
                        if isinstance(x, ast.Subscript):
                            k = x.slice
                            deep = True
                        x = x.value
                    w = where(x)
                    if w is None and isinstance(x, ast.Attribute) and deep:
                        w = None
                    if isinstance(x, ast.Name) and not deep and x.id not in glob:
                        w = None
                    if w is not None:
                        out.append((w, n, k, val))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                b = n.func.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                w = where(b)
                if w is not None:
                    key = n.args[0] if n.func.attr == 'setdefault' and n.args else None
                    v = n.args[-1] if n.args else None
                    out.append((w, n, key, v))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and len(n.args) >= 2 and isinstance(n.args[0], ast.Name) and n.args[0].id == sn and isinstance(n.args[1], ast.Constant):
                out.append((('self', n.args[1].value), n, None, n.args[2] if len(n.args) > 2 else None))
            if isinstance(n, ast.Call) and any(k.arg == 'out' for k in n.keywords):
                w = where(next(k.value for k in n.keywords if k.arg == 'out'))
                if w is not None:
                    out.append((w, n, None, None))
        return out

    def scan_writes(self, f):
        if f.cls is not None:
            for w, n, k, v in self.locs_written(f):
                if w[0] in ('self', 'class'):
                    self.writers.setdefault(f.cls, {}).setdefault(w[1], set()).add(f)
        # assignments on other objects
        fresh = set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                for t in n.targets:
                    fresh |= set(targets(t))
        sn = self_name(f)
        for n in own_nodes(f.node):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
            for t in ts:
                while isinstance(t, ast.Subscript):
                    t = t.value
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id != sn and t.value.id not in fresh:
                    self.outside.setdefault(t.attr, set()).add(f)

    def writes_trans(self, c, f, attr, seen=None):
        """f (a method seen from class c) writes attr itself or through methods of self it calls"""
        seen = seen if seen is not None else set()
        if f.qual in seen:
            return False
        seen.add(f.qual)
        if any(w[1] == attr for w, n, k, v in self.locs_written(f) if w[0] in ('self', 'class')):
            return True
        sn = self_name(f)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and n.attr == '__dict__' and isinstance(n.value, ast.Name) and n.value.id == sn:
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, (ast.Name, ast.Call)):
                v = n.func.value
                if isinstance(v, ast.Name) and v.id == sn:
                    g, k = c.method(n.func.attr)
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and f.cls is not None:
                    g = None
                    for b in f.cls.bases:
                        g, k = b.method(n.func.attr)
                        if g:
                            break
                else:
                    continue
                if g is not None and self.writes_trans(c, g, attr, seen):
                    return True
        return False

    # ---- dependences
    def method_reads(self, c, g, depth=0):
        """attributes of self (and files) a method depends on"""
        k = (c, g.qual)
        if k in self.reads_memo:
            return self.reads_memo[k]
        self.reads_memo[k] = set()
        out = set()
        sn = self_name(g)
        for n in own_nodes(g.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == sn and isinstance(n.ctx, ast.Load):
                h, _ = c.method(n.attr)
                if h is not None:
                    if depth < 6:
                        out |= self.method_reads(c, h, depth + 1)
                else:
                    out.add(('attr', n.attr))
            if isinstance(n, ast.Call) and self.does_io(g, n):
                out.add(('io', ''))
        self.reads_memo[k] = out
        return out

    def does_io(self, f, call, depth=0):
        fn = call.func
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ''
        if name in IO and not (name == 'load' and isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == 'self'):
            return True
        b = self.R.resolve(fn, self.R.ns_of(f))
        if b is not None and b.kind in ('func', 'method') and depth < 5:
            return self.fn_io(b.val, depth + 1)
        return False

    def fn_io(self, g, depth=0):
        if g.qual in self.io_memo:
            return self.io_memo[g.qual]
        self.io_memo[g.qual] = False
        r = any(isinstance(n, ast.Call) and self.does_io(g, n, depth) for n in own_nodes(g.node))
        self.io_memo[g.qual] = r
        return r

    def flow(self, f):
        """local name -> expressions it may come from"""
        d = {}

        def put(t, e):
            for x in targets(t):
                d.setdefault(x, []).append(e)
            for x in ast.walk(t):
                if isinstance(x, ast.Subscript):
                    b = x
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name):
                        d.setdefault(b.id, []).append(e)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                        for x, e in zip(t.elts, n.value.elts):
                            put(x, e)
                    else:
                        put(t, n.value)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                put(n.target, n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                put(n.target, n.iter)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        put(i.optional_vars, i.context_expr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name):
                for a in n.args:
                    d.setdefault(n.func.value.id, []).append(a)
            elif isinstance(n, ast.FunctionDef):
                d.setdefault(n.name, []).append(n)
            for a in (n.keywords if isinstance(n, ast.Call) else []):
                if a.arg == 'out' and isinstance(a.value, ast.Name):
                    d.setdefault(a.value.id, []).append(n)
        return d

    def deps(self, f, e, fl, skip=()):
        """sources the value of e depends on"""
        out, seen, todo = set(), set(), [e]
        sn = self_name(f)
        ps = set(params(f.node)) - {sn, cls_name(f)}
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    if n.id in fl:
                        todo += fl[n.id]
                    if n.id in ps:
                        out.add(('param', n.id))
                elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == sn and sn and isinstance(n.ctx, ast.Load):
                    if f.cls is None:
                        continue
                    h, _ = f.cls.method(n.attr)
                    if h is not None:
                        out |= self.method_reads(f.cls, h)
                    elif not class_level(f.cls, n.attr):
                        out.add(('attr', n.attr))
                if isinstance(n, ast.Call) and self.does_io(f, n):
                    out.add(('io', ''))
        return out

    def kept(self, f, e, fl, depth=0):
        """sources that e determines because they enter it unchanged"""
        if depth > 6 or e is None:
            return set()
        sn = self_name(f)
        if isinstance(e, ast.Name):
            r = set()
            if e.id in params(f.node) and e.id not in fl:
                r.add(('param', e.id))
            if len(fl.get(e.id, ())) == 1:
                r |= self.kept(f, fl[e.id][0], fl, depth + 1)
                if e.id in params(f.node):
                    r.add(('param', e.id))
            return r
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == sn:
            h, _ = f.cls.method(e.attr) if f.cls is not None else (None, None)
            return {('attr', e.attr)} if h is None else set()
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return set().union(*[self.kept(f, x, fl, depth + 1) for x in e.elts]) if e.elts else set()
        if isinstance(e, ast.Starred):
            return self.kept(f, e.value, fl, depth + 1)
        if isinstance(e, ast.JoinedStr):
            return set().union(*[self.kept(f, x.value, fl, depth + 1) for x in e.values if isinstance(x, ast.FormattedValue)] + [set()])
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mod)):
            return self.kept(f, e.left, fl, depth + 1) | self.kept(f, e.right, fl, depth + 1)
        if isinstance(e, (ast.GeneratorExp, ast.ListComp)):
            return set().union(*[self.kept(f, g.iter, fl, depth + 1) for g in e.generators])
        if isinstance(e, ast.Call):
            fn = e.func
            name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ''
            if name in KEEPS:
                r = set().union(*[self.kept(f, x, fl, depth + 1) for x in e.args] + [set()])
                if isinstance(fn, ast.Attribute):
                    r |= self.kept(f, fn.value, fl, depth + 1)
                return r
            b = self.R.resolve(fn, self.R.ns_of(f))
            if b is not None and b.kind == 'func' or isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == sn:
                # a helper that builds the key
                g = b.val if b is not None and b.kind == 'func' else f.cls.method(fn.attr)[0] if f.cls is not None else None
                if g is not None:
                    return self.helper_keeps(f, g, e, fl, depth)
        return set()

    def helper_keeps(self, f, g, call, fl, depth):
        rets = [n.value for n in own_nodes(g.node) if isinstance(n, ast.Return) and n.value is not None]
        if not rets:
            return set()
        gfl = self.flow(g)
        ks = [self.kept(g, r, gfl, depth + 1) for r in rets]
        common = set.intersection(*ks)
        ps = [p for p in params(g.node)]
        if self_name(g) or cls_name(g):
            ps = ps[1:]
        bind = dict(zip(ps, call.args))
        for k in call.keywords:
            if k.arg:
                bind[k.arg] = k.value
        out = set()
        for s in common:
            if s[0] == 'attr':
                out.add(s)
            elif s[1] in bind:
                out |= self.kept(f, bind[s[1]], fl, depth + 1)
        return out

    # ---- remembered locations
    def reads_loc(self, f, w, e, locals_of):
        """e reads location w (directly or through a local that came from it)"""
        sn, cn = self_name(f), cls_name(f)
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and n.attr == w[1] and w[0] in ('self', 'class') and isinstance(n.value, (ast.Name, ast.Call, ast.Attribute)):
                if not isinstance(n.value, ast.Name) or n.value.id in (sn, cn, f.cls.name if f.cls else None):
                    return True
            if isinstance(n, ast.Name) and n.id == w[1] and w[0] in ('mod', 'default'):
                return True
            if isinstance(n, ast.Attribute) and w[0] == 'mod' and isinstance(n.value, ast.Name) and n.value.id + '.' + n.attr == w[1]:
                return True
            if isinstance(n, ast.Name) and n.id in locals_of.get(w, ()):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr') and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value == w[1]:
                return True
            if isinstance(n, ast.Attribute) and n.attr == '__dict__' and w[0] == 'self':
                return any(isinstance(x, ast.Constant) and x.value == w[1] for x in ast.walk(e))
        return False

    def examine(self, f):
        """[(location, node, reason)] for the remembered locations of f"""
        out = []
        if f.node.name in ('__init__', '__new__'):
            return out
        ws = self.locs_written(f)
        fl = self.flow(f)
        self.decorated(f, out)
        if not ws:
            return out
        self.instances += len(ws)
        locs = set(w for w, _, _, _ in ws)
        # locals read straight from a location
        locals_of = {}
        for w in locs:
            s = set()
            for name, es in fl.items():
                if any(self.reads_loc(f, w, e, {}) and (isinstance(e, (ast.Attribute, ast.Subscript, ast.Name)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('get', 'pop', 'setdefault') or
                       isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'getattr') for e in es):
                    s.add(name)
            locals_of[w] = s
        tests = []      # (statement position path, test expr)
        for n in own_nodes(f.node):
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                tests.append((n, n.test))
            elif isinstance(n, ast.Try) and n.handlers:
                tests.append((n, ast.Module(body=n.body, type_ignores=[])))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'setdefault':
                tests.append((n, n))
            elif isinstance(n, ast.BoolOp) and not any(n in list(ast.walk(t)) for _, t in tests):
                tests.append((n, n))
        for w in sorted(locs):
            mine = [(n, k, v) for x, n, k, v in ws if x == w]
            fills = [(n, k, v) for n, k, v in mine if v is not None and not (isinstance(v, ast.Constant))]
            if not fills:
                continue
            if self.written_first(f, w, ws):
                continue
            # the test that decides whether the remembered value is used: it reads the location or another location written along with it
            guard, flags = [], {w[1]}
            tokens = [x for x in locs if not self.written_first(f, x, ws)]
            for n, t in tests:
                if any(self.reads_loc(f, x, t, locals_of) for x in tokens):
                    if isinstance(n, ast.Try):
                        if not any(self.reads_loc(f, w, t, locals_of) for _ in (0,)) or not self.handler_fills(n, mine):
                            continue
                    guard.append((n, t))
                    flags |= set(x[1] for x in tokens if self.reads_loc(f, x, t, locals_of))
            guard = [(n, t) for n, t in guard if self.governs(f, n, mine)]
            if not guard:
                continue
            self_only = w[0] == 'self'
            dep = set()
            keys = set()
            for n, k, v in fills:
                dep |= self.deps(f, v, fl)
                if k is not None:
                    keys |= self.kept(f, k, fl)
            for n, t in guard:
                # what the test compares
                for x in ast.walk(t):
                    if isinstance(x, ast.Compare):
                        for y in [x.left] + x.comparators:
                            keys |= self.kept(f, y, fl)
                    elif isinstance(x, ast.Call):
                        fn = x.func
                        nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', '')
                        if nm in SAME or nm in ('get', 'setdefault'):
                            for y in x.args:
                                keys |= self.kept(f, y, fl)
                    elif isinstance(x, ast.Subscript):
                        keys |= self.kept(f, x.slice, fl)
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and x.id in locals_of.get(w, ()):
                        for e in fl.get(x.id, ()):
                            for y in ast.walk(e):
                                if isinstance(y, ast.Call):
                                    for z in y.args:
                                        keys |= self.kept(f, z, fl)
                                elif isinstance(y, ast.Subscript):
                                    keys |= self.kept(f, y.slice, fl)
            # attributes filled along the way stand for what they are computed from
            done = {w[1]}
            while True:
                via = set(d for d in dep if d[0] == 'attr' and d[1] not in done and ('self', d[1]) in locs)
                if not via:
                    break
                for d in via:
                    done.add(d[1])
                    for x, n, k, v in ws:
                        if x == ('self', d[1]) and v is not None:
                            dep |= self.deps(f, v, fl)
            dep = set(d for d in dep if not (d[0] == 'attr' and d[1] in done)) - keys
            if w[0] == 'default':
                dep.discard(('param', w[1]))
            used = self.answers(f, w, guard, locals_of)
            for d in sorted(dep):
                if d[0] == 'param':
                    if used:
                        out.append((w, fills[0][0], 'is kept from the first call, but depends on the argument %s, which the test or key does not determine' % d[1]))
                elif d[0] == 'attr':
                    if w[0] != 'self':
                        out.append((w, fills[0][0], 'is shared by every object, but depends on the attribute %s of one of them' % d[1]))
                    elif self.given(f.cls, w[1]):
                        pass        # what the user hands over is part of the object's state, not a remembered answer
                    else:
                        for s in self.setters(f.cls, d[1], f):
                            if not any(self.writes_trans(f.cls, s, x) for x in sorted(flags)):
                                out.append((w, fills[0][0], 'depends on the attribute %s, which %s changes without clearing it' % (d[1], s.qual.split('.', 1)[-1])))
                                break
                elif d[0] == 'io' and w[0] != 'self':
                    out.append((w, fills[0][0], 'is kept for the life of the program, but depends on the contents of a file'))
        return out

    def handler_fills(self, t, mine):
        nodes = set(id(x) for h in t.handlers for x in ast.walk(h))
        return any(id(n) in nodes for n, k, v in mine)

    def governs(self, f, g, mine):
        """some write of the location happens only on one outcome of the test g"""
        if not isinstance(g, (ast.If, ast.While)):
            return True
        ids = set(id(n) for n, k, v in mine)
        inb = [x for s in g.body for x in ast.walk(s) if id(x) in ids]
        ino = [x for s in g.orelse for x in ast.walk(s) if id(x) in ids]
        if bool(inb) != bool(ino):
            return True
        if inb and ino:
            return False
        # writes after a branch that leaves the function
        return self.leaves(g.body) or self.leaves(g.orelse)

    def leaves(self, body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def written_first(self, f, w, ws):
        """an unconditional statement at the start of the body writes w (not one of its entries) before anything tests it"""
        nodes = set(id(n) for x, n, k, v in ws if x == w and k is None and isinstance(n, (ast.Assign, ast.AnnAssign)))
        for s in f.node.body:
            if id(s) in nodes:
                return not (s.value is not None and self.reads_loc(f, w, s.value, {}))
            if isinstance(s, (ast.If, ast.While, ast.For, ast.Try, ast.Return)):
                if any(self.reads_loc(f, w, x, {}) for x in ast.walk(s) if isinstance(x, ast.expr)):
                    return False
        return False

    def answers(self, f, w, guard, locals_of):
        """the function returns (or yields) something that may come from the location"""
        rets = [n for n in own_nodes(f.node) if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) and n.value is not None]
        if not rets:
            return False
        fl = self.flow(f)
        seen, todo = set(), [r.value for r in rets]
        while todo:
            e = todo.pop()
            if id(e) in seen:
                continue
            seen.add(id(e))
            if self.reads_loc(f, w, e, locals_of):
                return True
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and n.id in fl:
                    todo += fl[n.id]
        return False

    def setters(self, c, attr, me):
        """functions other than construction that assign or modify the attribute"""
        out = []
        for k in c.mro() + c.all_subs():
            for s in sorted(self.writers.get(k, {}).get(attr, ()), key=lambda s: s.qual):
                if s is me or s.node.name in ('__init__', '__new__', '__del__') or s.classm or s.static or self.only_init(c, s):
                    continue
                out.append(s)
        for s in sorted(self.outside.get(attr, ()), key=lambda s: s.qual):
            if any(attr in k.self_attrs for k in c.mro()) and s not in out:
                out.append(s)
        return out

    def given(self, c, attr):
        """a public method takes the value of the attribute as its argument and does nothing else"""
        for k in c.mro():
            for s in self.writers.get(k, {}).get(attr, ()):
                if s.node.name.startswith('_'):
                    continue
                body = [x for x in s.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                ps = set(a.arg for a in s.node.args.args[1:])
                if len(body) == 1 and isinstance(body[0], ast.Assign) and isinstance(body[0].value, ast.Name) and body[0].value.id in ps:
                    return True
        return False

    def only_init(self, c, s):
        """a private method called from the constructors alone"""
        if not s.node.name.startswith('_'):
            return False
        callers = set()
        for f in self.fns:
            for n in own_nodes(f.node):
                if isinstance(n, ast.Attribute) and n.attr == s.node.name:
                    callers.add(f.node.name)
        return bool(callers) and callers <= {'__init__', s.node.name}

    def decorated(self, f, out):
        for d in f.node.decorator_list:
            b = d.func if isinstance(d, ast.Call) else d
            name = b.attr if isinstance(b, ast.Attribute) else getattr(b, 'id', '')
            if name == 'cached_property' and f.cls is not None:
                self.instances += 1
                for a in sorted(self.method_reads(f.cls, f)):
                    if a[0] == 'attr':
                        for s in self.setters(f.cls, a[1], f):
                            if not self.writes_trans(f.cls, s, f.node.name):
                                out.append((('self', f.node.name), f.node, 'depends on the attribute %s, which %s changes without clearing it' % (a[1], s.qual.split('.', 1)[-1])))
                                return
            elif name in MEMO:
                self.instances += 1
                if self.fn_io(f):
                    out.append((('mod', f.node.name), f.node, 'is kept for the life of the program, but depends on the contents of a file'))
                    return
                if f.cls is not None and not f.static and not f.classm:
                    for a in sorted(self.method_reads(f.cls, f)):
                        if a[0] == 'attr' and self.setters(f.cls, a[1], f):
                            out.append((('class', f.node.name), f.node, 'depends on the attribute %s, which %s changes' % (a[1], self.setters(f.cls, a[1], f)[0].qual.split('.', 1)[-1])))
                            return


def findings(R):
    """(instances, [(function, location, node, reason)])"""
    S = Stale(R)
    out = []
    for f in S.fns:
        for w, n, why in S.examine(f):
            out.append((f, w, n, why))
    return S.instances, out
