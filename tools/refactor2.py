"""Second set of rewrites that keep the behaviour: library idioms, control-flow shapes, helper extraction from expressions and loop bodies.
yields (description, extra module statements, rewritten function)"""
import ast
import copy
import re


def E(s):
    return ast.parse(s, mode='eval').body


def npname(e):
    return e.attr if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ('np', 'numpy') else None


def kw(call, name):
    return next((k.value for k in call.keywords if k.arg == name), None)


def is_str(e):
    return isinstance(e, ast.JoinedStr) or isinstance(e, ast.Constant) and isinstance(e.value, str)


def expr_rewrites(n, store):
    """alternatives for one expression node: (description, node)"""
    if isinstance(n, ast.Call) and npname(n.func):
        f, a = npname(n.func), n.args
        np_ = n.func.value.id
        if f == 'reshape' and len(a) == 2:
            yield 'method reshape', ast.Call(ast.Attribute(a[0], 'reshape', ast.Load()), [a[1]], [])
        if f == 'power' and len(a) == 2:
            yield 'power operator', ast.BinOp(a[0], ast.Pow(), a[1])
            if isinstance(a[1], ast.Constant) and a[1].value == 2:
                yield 'square', ast.Call(ast.Attribute(ast.Name(np_, ast.Load()), 'square', ast.Load()), [a[0]], [])
                yield 'self product', ast.BinOp(a[0], ast.Mult(), copy.deepcopy(a[0]))
        if f in ('sum', 'mean', 'min', 'max', 'std', 'nanmean') and len(a) >= 1 and f != 'nanmean':
            yield 'method ' + f, ast.Call(ast.Attribute(a[0], f, ast.Load()), a[1:], n.keywords)
        if f in ('multiply', 'divide', 'add', 'subtract') and len(a) == 2:
            yield 'operator for ' + f, ast.BinOp(a[0], {'multiply': ast.Mult(), 'divide': ast.Div(), 'add': ast.Add(), 'subtract': ast.Sub()}[f], a[1])
        if f in ('matmul', 'dot') and len(a) == 2:
            yield '@', ast.BinOp(a[0], ast.MatMult(), a[1])
            yield 'the other product', ast.Call(ast.Attribute(ast.Name(np_, ast.Load()), 'dot' if f == 'matmul' else 'matmul', ast.Load()), a, [])
        if f == 'transpose' and len(a) == 1 and not n.keywords:
            yield '.T', ast.Attribute(a[0], 'T', ast.Load())
            yield '.transpose()', ast.Call(ast.Attribute(a[0], 'transpose', ast.Load()), [], [])
        if f == 'shape' and len(a) == 1:
            yield '.shape', ast.Attribute(a[0], 'shape', ast.Load())
        if f == 'ndim' and len(a) == 1:
            yield 'len(shape)', E('len(%s.shape(%s))' % (np_, ast.unparse(a[0])))
        if f in ('deg2rad', 'radians') and len(a) == 1:
            yield 'radians by hand', E('(%s) * %s.pi / 180' % (ast.unparse(a[0]), np_))
            yield 'other radians', E('%s.%s(%s)' % (np_, 'radians' if f == 'deg2rad' else 'deg2rad', ast.unparse(a[0])))
        if f in ('rad2deg', 'degrees') and len(a) == 1:
            yield 'degrees by hand', E('(%s) * 180 / %s.pi' % (ast.unparse(a[0]), np_))
        if f == 'sqrt' and len(a) == 1:
            yield 'root as power', ast.BinOp(a[0], ast.Pow(), ast.Constant(0.5))
        if f == 'zeros' and len(a) == 1 and not n.keywords:
            yield 'full', E('%s.full(%s, 0.0)' % (np_, ast.unparse(a[0])))
            yield 'ones*0', E('%s.zeros(shape=%s)' % (np_, ast.unparse(a[0])))
        if f == 'ones' and len(a) == 1 and not n.keywords:
            yield 'full', E('%s.full(%s, 1.0)' % (np_, ast.unparse(a[0])))
        if f == 'array' and len(a) == 1:
            pass
        if f == 'where' and len(a) == 1:
            yield 'nonzero', E('%s.nonzero(%s)' % (np_, ast.unparse(a[0])))
        if f == 'stack' and isinstance(kw(n, 'axis'), ast.Constant) and kw(n, 'axis').value == 2:
            yield 'axis=-1', E('%s.stack(%s, axis=-1)' % (np_, ast.unparse(a[0])))
            yield 'dstack', E('%s.dstack(%s)' % (np_, ast.unparse(a[0])))
        if f == 'arange' and len(a) == 1 and not n.keywords:
            yield 'arange from 0', E('%s.arange(0, %s)' % (np_, ast.unparse(a[0])))
        if f == 'squeeze' and len(a) == 1:
            yield '.squeeze()', ast.Call(ast.Attribute(a[0], 'squeeze', ast.Load()), [], [])
        if f in ('abs', 'absolute') and len(a) == 1:
            yield 'abs', E('abs(%s)' % ast.unparse(a[0]))
        if f == 'meshgrid' and len(a) == 2 and not n.keywords:
            yield "indexing='xy'", E("%s.meshgrid(%s, %s, indexing='xy')" % (np_, ast.unparse(a[0]), ast.unparse(a[1])))
        if f == 'isclose':
            pass
        if f == 'linalg':
            pass
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and not npname(n.func):
        f, a = n.func.attr, n.args
        if f == 'reshape' and a:
            yield 'np.reshape', ast.Call(E('np.reshape'), [n.func.value, a[0] if len(a) == 1 else ast.Tuple(a, ast.Load())], [])
        if f == 'ravel' and not a:
            yield 'reshape(-1)', ast.Call(ast.Attribute(n.func.value, 'reshape', ast.Load()), [ast.Constant(-1)], [])
            yield 'flatten', ast.Call(ast.Attribute(n.func.value, 'flatten', ast.Load()), [], [])
        if f == 'flatten' and not a:
            yield 'ravel', ast.Call(ast.Attribute(n.func.value, 'ravel', ast.Load()), [], [])
        if f == 'astype' and len(a) == 1 and not n.keywords:
            yield 'asarray dtype', ast.Call(E('np.array'), [n.func.value], [ast.keyword('dtype', a[0])])
        if f == 'format' and is_str(n.func.value):
            pass
        if f == 'append' and len(a) == 1 and isinstance(n.func.value, ast.Name):
            yield 'extend', ast.Call(ast.Attribute(n.func.value, 'extend', ast.Load()), [ast.List(a, ast.Load())], [])
        if f == 'keys' and not a:
            yield 'no keys()', n.func.value if False else n
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
        f, a = n.func.id, n.args
        if f == 'range' and len(a) == 1:
            yield 'range from 0', ast.Call(n.func, [ast.Constant(0), a[0]], [])
            yield 'range step', ast.Call(n.func, [ast.Constant(0), a[0], ast.Constant(1)], [])
        if f == 'float' and len(a) == 1:
            pass
        if f == 'len' and len(a) == 1:
            pass
        if f == 'str' and len(a) == 1:
            yield 'f-string', ast.JoinedStr([ast.FormattedValue(a[0], -1, None)])
            yield '{}.format', ast.Call(ast.Attribute(ast.Constant('{}'), 'format', ast.Load()), [a[0]], [])
        if f == 'list' and len(a) == 1 and isinstance(a[0], ast.Call) and getattr(a[0].func, 'id', None) == 'range':
            yield 'comprehension', E('[q for q in %s]' % ast.unparse(a[0]))
        if f == 'dict' and not a and not n.keywords:
            yield '{}', E('{}')
        if f == 'list' and not a:
            yield '[]', E('[]')
        if f in ('min', 'max') and len(a) == 2:
            x, y = ast.unparse(a[0]), ast.unparse(a[1])
            yield 'conditional', E('(%s) if (%s) %s (%s) else (%s)' % (x, x, '<=' if f == 'min' else '>=', y, y))
        if f == 'abs' and len(a) == 1:
            yield 'np.abs', ast.Call(E('np.abs'), a, [])
        if f == 'sum' and len(a) == 1:
            pass
    if isinstance(n, ast.BinOp):
        if isinstance(n.op, ast.Add) and (is_str(n.left) or is_str(n.right)):
            yield '{}{}.format', ast.Call(ast.Attribute(ast.Constant('{}{}'), 'format', ast.Load()), [n.left, n.right], [])
            yield 'f-string concat', ast.JoinedStr([ast.FormattedValue(n.left, -1, None), ast.FormattedValue(n.right, -1, None)])
            yield '%s%s', ast.BinOp(ast.Constant('%s%s'), ast.Mod(), ast.Tuple([n.left, n.right], ast.Load()))
        elif isinstance(n.op, ast.Add) and not isinstance(n.left, (ast.List, ast.Tuple)) and not isinstance(n.right, (ast.List, ast.Tuple)):
            yield 'minus negative', ast.BinOp(n.left, ast.Sub(), ast.UnaryOp(ast.USub(), n.right))
        if isinstance(n.op, ast.Sub):
            yield 'plus negative', ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
            yield 'negated difference', ast.UnaryOp(ast.USub(), ast.BinOp(n.right, ast.Sub(), n.left))
        if isinstance(n.op, ast.Div):
            yield 'times reciprocal', ast.BinOp(n.left, ast.Mult(), ast.BinOp(ast.Constant(1.0), ast.Div(), n.right))
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2:
            yield 'product', ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
            yield 'np.power', ast.Call(E('np.power'), [n.left, n.right], [])
        if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, (ast.Add, ast.Sub)):
            yield 'distribute', ast.BinOp(ast.BinOp(n.left.left, ast.Mult(), n.right), n.left.op, ast.BinOp(n.left.right, ast.Mult(), copy.deepcopy(n.right)))
        if isinstance(n.op, ast.MatMult):
            yield 'np.matmul', ast.Call(E('np.matmul'), [n.left, n.right], [])
            yield 'np.dot', ast.Call(E('np.dot'), [n.left, n.right], [])
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        o, l, r = n.ops[0], n.left, n.comparators[0]
        inv = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
               ast.In: ast.NotIn, ast.NotIn: ast.In}
        if isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) or store == 'test':
            yield 'not inverse', ast.UnaryOp(ast.Not(), ast.Compare(l, [inv[type(o)]()], [r]))
        if isinstance(o, ast.Eq) and isinstance(r, ast.Constant) and isinstance(r.value, str):
            yield 'in tuple', ast.Compare(l, [ast.In()], [ast.Tuple([r], ast.Load())])
            yield 'in list', ast.Compare(l, [ast.In()], [ast.List([r], ast.Load())])
    if isinstance(n, ast.BoolOp) and len(n.values) == 2:
        inner = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        yield 'De Morgan', ast.UnaryOp(ast.Not(), ast.BoolOp(inner, [ast.UnaryOp(ast.Not(), n.values[0]), ast.UnaryOp(ast.Not(), n.values[1])]))
    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
        s = n.slice
        if isinstance(s, ast.Tuple) and len(s.elts) > 1:
            full = lambda x: isinstance(x, ast.Slice) and x.lower is None and x.upper is None and x.step is None
            if all(full(x) for x in s.elts[:-1]) and not full(s.elts[-1]):
                yield 'ellipsis', ast.Subscript(n.value, ast.Tuple([ast.Constant(Ellipsis), s.elts[-1]], ast.Load()), ast.Load())
            if not full(s.elts[0]) and full(s.elts[-1]):
                e = list(s.elts)
                while full(e[-1]):
                    e.pop()
                yield 'drop trailing slices', ast.Subscript(n.value, ast.Tuple(e, ast.Load()) if len(e) > 1 else e[0], ast.Load())
            if len(s.elts) == 2 and isinstance(s.elts[0], (ast.Constant, ast.Name)) and isinstance(s.elts[1], (ast.Constant, ast.Name)):
                yield 'chained index', ast.Subscript(ast.Subscript(n.value, s.elts[0], ast.Load()), s.elts[1], ast.Load())
        if isinstance(s, ast.Slice) and s.lower is not None and isinstance(s.lower, ast.Constant) and s.lower.value == 0 and s.upper is not None:
            yield 'drop 0', ast.Subscript(n.value, ast.Slice(None, s.upper, s.step), ast.Load())
        if isinstance(s, ast.Call) and npname(s.func) == 'where' and len(s.args) == 1:
            yield 'boolean mask', ast.Subscript(n.value, s.args[0], ast.Load())
    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
        s = n.slice
        if isinstance(s, ast.Call) and npname(s.func) == 'where' and len(s.args) == 1:
            yield 'boolean mask store', ast.Subscript(n.value, s.args[0], ast.Store())
        if isinstance(s, ast.Tuple) and len(s.elts) == 3 and all(isinstance(x, ast.Slice) and x.lower is None and x.upper is None for x in s.elts[:2]):
            yield 'ellipsis store', ast.Subscript(n.value, ast.Tuple([ast.Constant(Ellipsis), s.elts[2]], ast.Load()), ast.Store())
    if isinstance(n, ast.IfExp):
        yield 'swap conditional', ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
    if isinstance(n, ast.ListComp) and len(n.generators) == 1:
        yield 'list(generator)', ast.Call(ast.Name('list', ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])
        g = n.generators[0]
        if not g.ifs and isinstance(g.target, ast.Name):
            yield 'list(map)', ast.Call(ast.Name('list', ast.Load()), [ast.Call(ast.Name('map', ast.Load()), [
                ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt), g.iter], [])], [])
    if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load):
        pass
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
        yield '-1 times', ast.BinOp(ast.UnaryOp(ast.USub(), ast.Constant(1)), ast.Mult(), n.operand)
        yield '0 minus', ast.BinOp(ast.Constant(0), ast.Sub(), n.operand)


def parents(fn):
    p = {}
    for n in ast.walk(fn):
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.AST):
                p[id(v)] = (n, f, None)
            elif isinstance(v, list):
                for k, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        p[id(x)] = (n, f, k)
    return p


def put(par, f, k, new):
    if k is None:
        setattr(par, f, new)
    else:
        getattr(par, f)[k] = new


def loads(n):
    return set(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load))


def stores(n):
    return set(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))


def fdef(name, args, body):
    h = ast.FunctionDef(name, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body, [], None, None)
    try:
        h.type_params = []
    except Exception:
        pass
    return h


def blocks(fn):
    for y in ast.walk(fn):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(y, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield y, f, b


def refactors(fn, cls=None):
    nodes = list(ast.walk(fn))
    ann = set(id(x) for a in [fn.args] + [fn.returns] + fn.decorator_list if a is not None for x in ast.walk(a))
    tests = set(id(n.test) for n in nodes if isinstance(n, (ast.If, ast.While, ast.IfExp)))
    for i, n in enumerate(nodes):
        if id(n) in ann or not isinstance(n, ast.expr):
            continue
        for d, new in list(expr_rewrites(n, 'test' if id(n) in tests else '')):
            if new is n:
                continue
            c = copy.deepcopy(fn)
            m = list(ast.walk(c))[i]
            par, f, k = parents(c)[id(m)]
            put(par, f, k, copy.deepcopy(new))
            ast.fix_missing_locations(c)
            yield 'line %s %s: %s' % (getattr(n, 'lineno', '?'), d, ast.unparse(n)[:60]), [], c
    localset = set(a.arg for a in fn.args.args + fn.args.kwonlyargs) | stores(fn)
    # statement shapes
    for bi, (y, f, b) in enumerate(list(blocks(fn))):
        for k, s in enumerate(b):
            def at(g):
                c = copy.deepcopy(fn)
                yy, ff, bb = list(blocks(c))[bi]
                g(bb, bb[k])
                ast.fix_missing_locations(c)
                return c
            ln = 'line %s ' % s.lineno
            if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute)) and isinstance(s.value, (ast.Constant, ast.Name, ast.BinOp)):
                def g(bb, x):
                    t = copy.deepcopy(x.target)
                    for q in ast.walk(t):
                        if hasattr(q, 'ctx'):
                            q.ctx = ast.Load()
                    bb[k] = ast.Assign([x.target], ast.BinOp(t, x.op, x.value))
                yield ln + 'spelled-out augmented assignment ' + ast.unparse(s)[:50], [], at(g)
            if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse:
                def g(bb, x):
                    bb[k] = ast.If(x.test.values[0], [ast.If(ast.BoolOp(ast.And(), x.test.values[1:]) if len(x.test.values) > 2 else x.test.values[1], x.body, [])], [])
                yield ln + 'nested if', [], at(g)
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) \
                    and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                def g(bb, x):
                    bb[k] = ast.Assign(x.body[0].targets, ast.IfExp(x.test, x.body[0].value, x.orelse[0].value))
                yield ln + 'conditional expression', [], at(g)
            if isinstance(s, ast.If) and not s.orelse and k + 1 < len(b) and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                def g(bb, x):
                    x.orelse = bb[k + 1:]
                    del bb[k + 1:]
                yield ln + 'rest into else', [], at(g)
            if isinstance(s, ast.If) and not s.orelse and k == len(b) - 1 and y is fn and not isinstance(s.body[-1], (ast.Return, ast.Raise)):
                def g(bb, x):
                    bb[k:] = [ast.If(ast.UnaryOp(ast.Not(), x.test), [ast.Return(None)], [])] + x.body
                yield ln + 'guard clause', [], at(g)
            if isinstance(s, ast.If) and s.orelse and not isinstance(s.test, ast.Name):
                def g(bb, x):
                    bb[k:k + 1] = [ast.Assign([ast.Name('flag_q', ast.Store())], x.test), ast.If(ast.Name('flag_q', ast.Load()), x.body, x.orelse)]
                yield ln + 'named condition', [], at(g)
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and all(isinstance(e, ast.Name) for e in s.targets[0].elts):
                if isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts) and not (stores(s) & loads(s)):
                    def g(bb, x):
                        bb[k:k + 1] = [ast.Assign([t], v) for t, v in zip(x.targets[0].elts, x.value.elts)]
                    yield ln + 'split tuple assignment', [], at(g)
                else:
                    def g(bb, x):
                        bb[k:k + 1] = [ast.Assign([ast.Name('pair_q', ast.Store())], x.value)] + [
                            ast.Assign([t], ast.Subscript(ast.Name('pair_q', ast.Load()), ast.Constant(j), ast.Load())) for j, t in enumerate(x.targets[0].elts)]
                    yield ln + 'index the tuple', [], at(g)
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and k + 1 < len(b) and isinstance(b[k + 1], ast.Assign) \
                    and len(b[k + 1].targets) == 1 and isinstance(b[k + 1].targets[0], ast.Name) and s.targets[0].id not in loads(b[k + 1].value) \
                    and s.targets[0].id != b[k + 1].targets[0].id:
                def g(bb, x):
                    z = bb[k + 1]
                    bb[k:k + 2] = [ast.Assign([ast.Tuple([x.targets[0], z.targets[0]], ast.Store())], ast.Tuple([x.value, z.value], ast.Load()))]
                yield ln + 'join assignments', [], at(g)
            if isinstance(s, ast.With) and len(s.items) == 1 and k == 0 and False:
                pass
            # no-op statements
            if k == len(b) - 1 and y is fn:
                def g(bb, x):
                    bb.insert(k, ast.Expr(ast.Constant(None)))
                    bb.insert(k, ast.Assign([ast.Name('unused_q', ast.Store())], ast.Constant(0)))
                yield ln + 'unused local', [], at(g)
            # extract the value of an assignment, or one loop body, into a helper
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.BinOp, ast.Call, ast.ListComp, ast.IfExp, ast.Tuple)):
                inner = set(x.id for q in ast.walk(s.value) if isinstance(q, ast.comprehension) for x in ast.walk(q.target) if isinstance(x, ast.Name))
                inner |= set(a.arg for q in ast.walk(s.value) if isinstance(q, ast.Lambda) for a in q.args.args)
                used = sorted((loads(s.value) & localset) - inner)
                if not any(isinstance(q, ast.Name) and q.id == 'super' for q in ast.walk(s.value)):
                    def g(bb, x):
                        x.value = ast.Call(ast.Name('_value_q', ast.Load()), [ast.Name(a, ast.Load()) for a in used], [])
                    yield ln + 'value from helper', [fdef('_value_q', used, [ast.Return(copy.deepcopy(s.value))])], at(g)

                    def g(bb, x):
                        bb[k:k + 1] = [fdef('_inner_q', [], [ast.Return(copy.deepcopy(s.value))]), x]
                        x.value = ast.Call(ast.Name('_inner_q', ast.Load()), [], [])
                    yield ln + 'value from closure', [], at(g)
            if isinstance(s, ast.For) and not s.orelse and not any(isinstance(q, (ast.Return, ast.Break, ast.Continue, ast.Yield)) for q in ast.walk(s)):
                out = set()
                for q in s.body:
                    out |= stores(q)
                after = set(x.id for z in nodes if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Load) and getattr(z, 'lineno', 0) > s.end_lineno for x in [z])
                before = stores_before(fn, s)
                carried = out & before
                if not carried and not (out & after):
                    used = sorted((set().union(*[loads(q) for q in s.body]) & localset) - (out - before - stores(s.target)) - (out - loads_first(s.body, out)))
                    used = sorted(set(used) | (stores(s.target) & set().union(*[loads(q) for q in s.body])))

                    def g(bb, x):
                        body = x.body
                        x.body = [ast.Expr(ast.Call(ast.Name('_step_q', ast.Load()), [ast.Name(a, ast.Load()) for a in used], []))]
                    yield ln + 'loop body to helper', [fdef('_step_q', used, copy.deepcopy(s.body))], at(g)

                def g(bb, x):
                    it = ast.Name('items_q', ast.Load())
                    bb[k:k + 1] = [ast.Assign([ast.Name('items_q', ast.Store())], ast.Call(ast.Name('list', ast.Load()), [x.iter], [])), x]
                    x.iter = it
                yield ln + 'iterate a list', [], at(g)

                def g(bb, x):
                    bb[k:k + 1] = [ast.Assign([ast.Name('it_q', ast.Store())], ast.Call(ast.Name('iter', ast.Load()), [x.iter], [])), x]
                    x.iter = ast.Name('it_q', ast.Load())
                yield ln + 'iterate an iterator', [], at(g)
    # local alias of an attribute of self that is only read
    attrs = {}
    for n in nodes:
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
            attrs.setdefault(n.attr, []).append(n)
    called = set(id(n.func) for n in nodes if isinstance(n, ast.Call))
    for a in sorted(attrs):
        ns = attrs[a]
        if all(isinstance(x.ctx, ast.Load) for x in ns) and len(ns) > 1 and not any(id(x) in called for x in ns):
            # only when it is read before anything is called on self
            c = copy.deepcopy(fn)

            class R(ast.NodeTransformer):
                def visit_Attribute(self, x):
                    if isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr == a:
                        return ast.Name('alias_q', ast.Load())
                    self.generic_visit(x)
                    return x
            c = R().visit(c)
            j = 1 if isinstance(c.body[0], ast.Expr) and isinstance(c.body[0].value, ast.Constant) else 0
            c.body.insert(j, ast.Assign([ast.Name('alias_q', ast.Store())], E('self.' + a)))
            ast.fix_missing_locations(c)
            yield 'alias self.%s (if defined and not reassigned)' % a, [], c
    # wrap the whole body in try/finally that does nothing
    if not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in nodes):
        c = copy.deepcopy(fn)
        j = 1 if isinstance(c.body[0], ast.Expr) and isinstance(c.body[0].value, ast.Constant) else 0
        if c.body[j:]:
            c.body[j:] = [ast.Try(c.body[j:], [], [], [ast.Pass()])]
            ast.fix_missing_locations(c)
            yield 'try/finally pass', [], c
            c = copy.deepcopy(fn)
            c.body[j:] = [ast.Try(c.body[j:], [ast.ExceptHandler(ast.Name('Exception', ast.Load()), None, [ast.Raise(None, None)])], [], [])]
            ast.fix_missing_locations(c)
            yield 'except: raise', [], c


def stores_before(fn, s):
    r = set(a.arg for a in fn.args.args)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and getattr(n, 'lineno', 0) < s.lineno:
            r.add(n.id)
    return r


def loads_first(body, names):
    """names that may be read in the body before the body stores them"""
    r, done = set(), set()
    for s in body:
        v = getattr(s, 'value', None)
        r |= (loads(s) & names) - done
        done |= stores(s)
    return r
