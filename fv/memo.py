"""Functions whose results are remembered: decorators and wrappers of functools, and what they remember."""
import ast

from .model import FuncInfo, rel
from .ntypes import Types

CACHES = {"functools.lru_cache", "functools.cache"}
KEPT = {"functools.cached_property"}
MUTATORS = {"append", "add", "extend", "insert", "remove", "discard", "pop", "clear", "update", "sort", "reverse", "put",
            "appendleft", "popleft", "popitem", "setdefault"}


def path_of(prog, m, e):
    """dotted external path an expression names, or None"""
    attrs = []
    while isinstance(e, ast.Call):
        e = e.func
    while isinstance(e, ast.Attribute):
        attrs.insert(0, e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    b = prog.lookup(m, e.id)
    if isinstance(b, tuple) and b[0] == "ext":
        return ".".join([b[1]] + attrs)
    return None


def decorated(prog, paths):
    """[(FuncInfo, decorator path)]"""
    for f in prog.functions():
        for d in getattr(f.node, "decorator_list", []):
            p = path_of(prog, f.module, d)
            if p in paths:
                yield f, p


def wrapped(prog):
    """[(module, call, FuncInfo or None)]: caches applied by hand, f = lru_cache(...)(g)"""
    for m in prog.modules.values():
        deco = {id(x) for n in ast.walk(m.tree) for d in getattr(n, "decorator_list", []) for x in ast.walk(d)}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and id(n) not in deco and path_of(prog, m, n.func) in CACHES:
                for a in n.args:
                    if isinstance(a, ast.Constant):
                        continue
                    b = prog.lookup(m, a.id) if isinstance(a, ast.Name) else None
                    if b is None and isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name):
                        c = prog.lookup(m, a.value.id)
                        b = c.method(a.attr) if hasattr(c, "method") else None
                    yield m, n, b if isinstance(b, FuncInfo) else None


def mutable(kinds):
    out = set()
    for k in kinds:
        if isinstance(k, tuple) and k[0] in ("obj", "coll"):
            out.add(k[1].name if k[0] == "obj" else "container")
    return sorted(out)


def shared_results(prog):
    """[(where, function, problem or None)] for every cache that lives as long as the process"""
    T = None
    for f, node in [(f, None) for f, _ in decorated(prog, CACHES)] + [(f, (m, n)) for m, n, f in wrapped(prog)]:
        where = f.where if node is None else f"{rel(node[0].path)}:{node[1].lineno} {f.qual if f else '?'}"
        if f is None:
            yield where, "?", "a function that cannot be resolved is memoised"
            continue
        T = T or Types(prog).solve()
        g = T.funcs[id(f.node)]
        bad = [f"{p}: {', '.join(mutable(T.get(('v', g.key, p))))}" for p in g.params + g.kwonly if mutable(T.get(("v", g.key, p)))]
        ret = mutable(T.get(("r", g.key)))
        if bad:
            yield where, f.qual, f"results are remembered for objects, whose contents can change ({'; '.join(bad)})"
        elif ret:
            yield where, f.qual, f"callers are given the same {', '.join(ret)}"
        else:
            yield where, f.qual, None


def stale_properties(prog):
    """[(FuncInfo, [names])] cached properties and the attributes they are computed from that change later"""
    changing = {}
    for f in prog.functions():
        if f.name == "__init__":
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                changing.setdefault(n.attr, f.where)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Attribute):
                changing.setdefault(n.func.value.attr, f.where)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute):
                changing.setdefault(n.value.attr, f.where)
    byname = {}
    for f in prog.functions():
        byname.setdefault(f.name, []).append(f)
    for f, _ in decorated(prog, KEPT):
        seen, todo, reads = set(), [f], set()
        while todo:
            g = todo.pop()
            if id(g) in seen:
                continue
            seen.add(id(g))
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    reads.add(n.attr)
                    todo += byname.get(n.attr, [])
        yield f, {a: changing[a] for a in sorted(reads & set(changing))}
