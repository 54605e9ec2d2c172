"""Shared helpers of the checks built on the interpreter."""
from .interp import (Interp, Client, State, Obj, K, Num, Ref, Tup, Fn, Cls, Opq, Ext, Bound, NONE, Exc, Seg,
                     is_numlike, tonum, ckey, fresh)
from .model import Program, Unsupported, rel
from .poly import R, Poly, Facts, sqrt, fun, INF

ANY = frozenset((-1, 0, 1))


def A(name):
    return R.atom(name)


def num(name, kind="dec"):
    return Num(R.atom(name), kind)


def dec(r):
    return Num(r, "dec")


def make(I, st, cls, *args, **kw):
    """abstractly run a constructor; the constructor must have one outcome"""
    out, exc = I.run(st, Cls(I.p.cls(cls)), list(args), kw)
    if exc or len(out) != 1:
        raise Unsupported(f"constructor {cls} has {len(out)} outcomes and {len(exc)} exceptions")
    return out[0][0], out[0][1]


def make_region(I, st, corners, cls="Polygon"):
    """Abstractly run a region's constructor on symbolic corners.  Where it decides by the order of the corners' coordinates, one order
    is assumed while it runs and forgotten afterwards; the extents become symbols."""
    args = [st.mklist([Tup((num(c + ".x"), num(c + ".y"))) for c in corners])]
    k = Cls(I.p.cls(cls))
    out, exc = I.run(st.copy(), k, args)
    if len(out) == 1 and not exc:
        return out[0]
    s2 = st.copy()
    n = len(corners)
    for a, order in (("x", range(n)), ("y", [(i + n // 2) % n for i in range(n)])):
        o = [A(f"{corners[i]}.{a}") for i in order]
        for i in range(n):
            for j in range(i + 1, n):
                s2.facts.assume(o[j] - o[i], frozenset((1,)))
    out, exc = I.run(s2, k, args)
    if not out:
        raise Unsupported(f"constructor {cls} has no outcome and {len(exc)} exceptions")
    x, v = out[0]
    x.facts = st.facts.copy()
    for f in ("min_x", "max_x", "min_y", "max_y"):
        x.set(v, I.p.field_of(cls, f), dec(A(fresh("ext"))))
    return x, v


def upto(st, a, b, others):
    """a <= b by the facts of the path, through any chain of the others"""
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if st.facts.sign(b - x) <= {0, 1}:
            return True
        for i, o in enumerate(others):
            if i not in seen and st.facts.sign(o - x) <= {0, 1}:
                seen.add(i)
                todo.append(o)
    return False


def point(I, st, name, cls="Point", **kw):
    """a coordinate with symbolic components name.x, name.y (the state is updated in place)"""
    st2, v = make(I, st, cls, num(name + ".x"), num(name + ".y"), **kw)
    st.become(st2)
    return v


def attr(I, st, ref, name):
    """read an attribute (properties are run); must have one outcome"""
    I.sinks.append([])
    try:
        out = I.getattr(st, ref, name, None)
    finally:
        exc = I.sinks.pop()
    if exc or len(out) != 1:
        raise Unsupported(f"attribute {name} has {len(out)} outcomes")
    st.become(out[0][0])
    return out[0][1]


def r_of(v):
    n = tonum(v)
    return n.r if n is not None else None


def signs_of(st, r):
    return st.facts.sign(r)


def cases(st, exprs):
    """all sign vectors of `exprs` consistent with st's facts: [(signs, facts)]"""
    out = [((), st.facts.copy())]
    for r in exprs:
        nxt = []
        for sg, f in out:
            for s in (-1, 0, 1):
                g = f.copy()
                if g.assume(r, frozenset((s,))) and g.sign(r) == frozenset((s,)):
                    nxt.append((sg + (s,), g))
                elif g.assume(r, frozenset((s,))):
                    nxt.append((sg + (s,), g))
        out = nxt
    return out


def where_fn(fi):
    return f"{rel(fi.module.path)}:{fi.node.lineno} {fi.qual}"


def node_where(I, node):
    return I.where(node)
