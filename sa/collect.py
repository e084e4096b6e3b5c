"""Values collected by a loop are the values of their own turn.

Rule: in a loop, an object is put into a collection (append, insert, or an entry of a list or dictionary made in the same function) by
reference.  Its name must be bound again before or after that on every turn, or the loop must not write into the object; otherwise all turns
put one and the same object into the collection, and what it holds at the end of the last turn is what every entry holds."""
import ast

MAKERS = {'dict', 'list', 'set', 'collections.OrderedDict', 'OrderedDict', 'defaultdict', 'collections.defaultdict', 'bytearray'}
ARRAYS = {'zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'array', 'copy'}
WRITES = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'fill', 'update', 'setdefault', 'popitem', 'resize'}
LOOPS = (ast.For, ast.While)


def made(v, classes):
    """the kind of a new object, None for anything else"""
    if isinstance(v, (ast.Dict, ast.DictComp)):
        return 'dict'
    if isinstance(v, (ast.List, ast.ListComp)):
        return 'list'
    if isinstance(v, ast.Call) and not any(isinstance(a, ast.Starred) for a in v.args):
        d = ast.unparse(v.func)
        if d in MAKERS:
            return 'list' if d == 'list' else 'dict'
        if d.split('.')[0] in ('np', 'numpy') and d.split('.')[-1] in ARRAYS:
            return 'array'
        if d.split('.')[-1] in classes:
            return 'object'
    return None


def own(body):
    """nodes of some statements, nested functions and classes apart"""
    st = list(body)
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            st.extend(ast.iter_child_nodes(n))


def root(n):
    while isinstance(n, (ast.Attribute, ast.Subscript)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def writes(nodes, name):
    """the first construct that writes into the object called name"""
    for n in nodes:
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == name:
            return n
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
            if n.func.attr in WRITES or n.func.attr.startswith('set_') or n.func.attr.startswith('add_'):
                return n
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            return n
    return None


def puts(nodes, kinds):
    """(name, node): the object called name is put into a collection"""
    for n in nodes:
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'insert') and not n.keywords and n.args:
            v = n.args[-1]
            where = root(n.func.value)
            if n.func.attr == 'append' and len(n.args) != 1 or n.func.attr == 'insert' and len(n.args) != 2:
                continue
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].value, ast.Name):
            v, where = n.value, n.targets[0].value.id
            if kinds.get(where, {None}) - {'dict', 'list'} or isinstance(n.targets[0].slice, ast.Constant):
                continue
        else:
            continue
        names = [v] + (list(v.elts) if isinstance(v, (ast.Tuple, ast.List)) else list(v.values) if isinstance(v, ast.Dict) else [])
        for x in names:
            if isinstance(x, ast.Name) and x.id != where:
                yield x.id, where, n


def binds(nodes, name, kept=()):
    """a name is bound; an augmented assignment does not bind it when it holds an array or a list, it writes into that"""
    nodes = list(nodes)
    same = set(id(n.target) for n in nodes if isinstance(n, ast.AugAssign)) if kept and set(kept) <= {'array', 'list'} else ()
    for n in nodes:
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in same:
            return True
        if isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names:
            return True
    return False


def leaves(loop, node):
    """the block that holds node leaves the loop before another turn"""
    for n in own(loop.body):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and any(node is x for s in b if not isinstance(s, LOOPS) for x in ast.walk(s)) and any(isinstance(s, (ast.Break, ast.Return, ast.Raise)) for s in b):
                return True
    b = loop.body
    return any(isinstance(s, (ast.Break, ast.Return)) for s in b)


def findings(fn, classes):
    """(number of collecting loops, [(name, collecting construct, writing construct, loop)])"""
    everything = list(own(fn.body))
    kinds = {}
    for n in everything:
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    kinds.setdefault(t.id, set()).add(made(n.value, classes))
                else:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            kinds.setdefault(x.id, set()).add(None)
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    kinds.setdefault(x.id, set()).add(None)
        elif isinstance(n, (ast.With, ast.NamedExpr, ast.AnnAssign)):
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    kinds.setdefault(x.id, set()).add(None)
    for a in ast.walk(fn.args):
        if isinstance(a, ast.arg):
            kinds.setdefault(a.arg, set()).add(None)
    count, out = 0, []
    for loop in everything:
        if not isinstance(loop, LOOPS):
            continue
        body = list(own(loop.body))
        got = list(puts(body, kinds))
        count += len(got)
        for name, where, n in got:
            if None in kinds.get(name, {None}) or binds(body, name, kinds[name]) or where is not None and binds(body, where):
                continue            # another object each turn, or another collection
            w = writes(body, name)
            if w is not None and not leaves(loop, n):
                out.append((name, n, w, loop))
    return count, out
