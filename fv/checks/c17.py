"""C17 - bounding regions expose the extent they were given."""
import ast
import itertools

from ..lib import *
from .. import edges, region

RULE = ("Abstract interpretation of the regions' constructors and accessors on symbolic corners, sides and radii: on every path of the comparisons of the corners "
        "the extents are those of the corners, the centre is their middle, the corners are the given ones and ordered around a point strictly inside; the clipping is "
        "evaluated with a sweep line below the region; and every call on a region binds to the parameters of each kind of region.")
SIDES = ("min_x", "max_x", "min_y", "max_y")


class Corners(region.RegionClient):
    """sorting keeps the given order and its keys are recorded; minima and maxima are split into cases"""
    fork_minmax = True

    def on_ext(self, I, st, path, args, kwargs, node):
        return super().on_ext(I, st, path, args, kwargs, node) if path == "builtins.sorted" else None


def build(prog, cls, args, facts=(), cl=None):
    """all outcomes of a constructor: (Kit, outcomes, exceptions, client)"""
    cl = cl or Corners(prog)
    k = edges.Kit(prog, cl)
    for r, sg in facts:
        if not k.st.facts.assume(r, frozenset(sg)):
            raise Unsupported("inconsistent facts")
    a = args(k)
    out, exc = k.I.run(k.st, Cls(prog.cls(cls)), a)
    return k, out, exc, cl


def eq(st, a, r):
    n = r_of(a)
    return n is not None and st.facts.sign(n - r) == {0}


def pairs(k, st, v):
    """the coordinates handed out, as pairs"""
    got = []
    for x in k.segs(st, v):
        if isinstance(x, Tup) and len(x.items) == 2:
            got.append(tuple(r_of(y) for y in x.items))
        elif isinstance(x, Ref) and st.obj(x).kind in ("list",):
            got.append(tuple(r_of(y) for y in k.segs(st, x)))
        else:
            return None
    return got


def shape(prog, rep, E, cls, what, args, corners, facts=(), extents=None, names=""):
    w = where_fn(prog.cls(cls).method("__init__"))
    k, out, exc, cl = build(prog, cls, args, facts)
    rep.interp(k.I, len(out))
    rep.count("regions", 1)
    for st, e in exc:
        rep.ob(False, "no exception", w, f"{what} can be made", e)
    if not out:
        rep.ob(False, "constructor", w, f"{what} can be made", "no outcome")
    bad = {n: None for n in SIDES + ("center", "corners")}
    for st, b in out:
        if any(st.facts.sign(p[0] - q[0]) == {0} and st.facts.sign(p[1] - q[1]) == {0} for i, p in enumerate(corners) for q in corners[:i]):
            continue        # a polygon's corners are different points
        st = st.copy()
        k.st = st
        v = {n: k.get(b, n, st) for n in SIDES}
        for n in SIDES:
            i = 0 if n[-1] == "x" else 1
            if extents:
                ok = eq(st, v[n], extents[n])
            else:
                r = r_of(v[n])
                all_ = [c[i] for c in corners]
                ok = r is not None and all(upto(st, r, c, all_) if n[:3] == "min" else upto(st, c, r, all_) for c in all_) and any(st.facts.sign(r - c) == {0} for c in all_)
            if not ok:
                bad[n] = bad[n] or str(v[n])
        m = k.get(b, "center", st)
        for a, lo, hi in (("xd", "min_x", "max_x"), ("yd", "min_y", "max_y")):
            c, p, q = r_of(k.get(m, a, st)), r_of(v[lo]), r_of(v[hi])
            if None in (c, p, q) or st.facts.sign(c * R.const(2) - p - q) != {0}:
                bad["center"] = bad["center"] or str(k.get(m, a, st))
        o2, x2 = k.I.run(st.copy(), Bound(Fn(k.method(b, "get_coordinates")), b), [])
        for s3, e in x2:
            bad["corners"] = bad["corners"] or str(e)
        for s3, got in o2:
            got = pairs(k, s3, got)
            left = list(corners)
            for g in got or ():
                hit = next((c for c in left if None not in g and all(st.facts.sign(x - y) == {0} for x, y in zip(g, c))), None)
                if hit is None:
                    bad["corners"] = bad["corners"] or f"{g}"
                else:
                    left.remove(hit)
            if got is None or left:
                bad["corners"] = bad["corners"] or f"missing {left}"
    for n in SIDES:
        rep.ob(bad[n] is None, "extents", w, f"{what}: {n} is that of its corners", bad[n] or "")
    rep.ob(bad["center"] is None, "centre", w, f"{what}: the centre is the middle of the extents", bad["center"] or "")
    rep.ob(bad["corners"] is None, "corners", w, f"{what}: the corners are the given ones", bad["corners"] or "")
    if names:
        k, out, exc, cl = build(prog, cls, args, facts, region.RegionClient(prog))
        for st, b in out:
            for v, kv, rev, s2, where in cl.sorts:
                region.order_obligation(E, k, b, v, kv, rev, st, where, names)
        rep.ob(bool(cl.sorts), "order of the corners", w, f"{what}: the corners are put in order around the region", "")


def circle(prog, rep):
    w = where_fn(prog.cls("BoundingCircle").method("__init__"))
    k, out, exc, cl = build(prog, "BoundingCircle", lambda k: [num("o.x"), num("o.y"), num("r")], [(A("r"), (1,))])
    rep.interp(k.I, len(out))
    for st, e in exc:
        rep.ob(False, "no exception", w, "a circle can be made", e)
    for st, b in out:
        k.st = st
        m = k.get(b, "center", st)
        for a in "xy":
            rep.ob(eq(st, k.get(m, a + "d", st), A("o." + a)), "centre", w, f"circle: the centre's {a} is the given one", k.get(m, a + "d", st))
            rep.ob(eq(st, k.get(b, a + "d", st), A("o." + a)), "centre", w, f"circle: {a}d is that of the centre", k.get(b, a + "d", st))
            lo, hi = (r_of(k.get(b, f"{s}_{a}", st)) for s in ("min", "max"))
            rep.ob(None not in (lo, hi) and st.facts.sign(lo + hi - A("o." + a) * R.const(2)) == {0}, "extents", w, f"circle: the extents in {a} lie symmetrically around the centre", f"{lo} {hi}")
            rep.ob(None not in (lo, hi) and st.facts.sign(hi - A("o." + a) - A("r")) <= {0, 1}, "extents", w, f"circle: the extents in {a} contain the circle", f"{lo} {hi}")
        rep.ob(eq(st, k.get(b, "radius", st), A("r")), "radius", w, "circle: the radius is the given one", k.get(b, "radius", st))


def calls(prog, rep):
    """every call of a region's method from outside the regions binds to the parameters of each kind of region"""
    kinds = [prog.cls(c) for c in ("Polygon", "BoundingBox", "BoundingCircle")]
    names = ("finish_edges", "finish_polygon", "inside")
    for f in prog.functions():
        if f.cls in kinds:
            continue
        for c in ast.walk(f.node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in names:
                w = f"{rel(f.module.path)}:{c.lineno} in {f.qual}"
                for kc in kinds:
                    m = kc.method(c.func.attr)
                    rep.ob(m is not None and binds(m.node.args, c), "interchangeable regions", w, f"the call of {c.func.attr} fits {kc.name}", "")
                    rep.count("region_calls", 1)


def binds(a, c):
    pos = [x.arg for x in a.args][1:]
    if any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords):
        return True
    if len(c.args) > len(pos) and not a.vararg:
        return False
    given = set(pos[:len(c.args)])
    for k in c.keywords:
        if k.arg in given or (k.arg not in pos and k.arg not in [x.arg for x in a.kwonlyargs] and not a.kwarg):
            return False
        given.add(k.arg)
    need = pos[:len(pos) - len(a.defaults)] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return all(n in given for n in need)


def observed(prog, rep):
    """an observer can be attached to each kind of region, also before it joins a diagram"""
    make_ = {"Polygon": lambda k: [k.st.mklist([Tup((num(c + ".x"), num(c + ".y"))) for c in "pqr"])],
             "BoundingBox": lambda k: [num(n) for n in ("left", "right", "bottom", "top")],
             "BoundingCircle": lambda k: [num("o.x"), num("o.y"), num("r")]}
    for cls, args in make_.items():
        k, out, exc, cl = build(prog, cls, args, (), region.RegionClient(prog))
        for st, b in out[:1]:
            w = where_fn(k.I.p.cls(cls).method("__init__"))
            o2, x2 = k.I.run(st, Bound(Fn(prog.cls(cls).method("attach_observer")), b), [Opq("observer")])
            rep.ob(not x2 and o2, "interchangeable regions", w, f"an observer can be attached to a new {cls}", x2[:1])


def run(prog, rep):
    E = edges.Edges(prog, rep.tier)
    l, r, b, t = (A(n) for n in ("left", "right", "bottom", "top"))
    box = {"min_x": l, "max_x": r, "min_y": b, "max_y": t}
    shape(prog, rep, E, "BoundingBox", "a box", lambda k: [num(n) for n in ("left", "right", "bottom", "top")],
          [(l, t), (r, t), (r, b), (l, b)], [(r - l, (1,)), (t - b, (1,))], box)
    for h, v, what in ((-1, 1, "left and right"), (1, -1, "bottom and top"), (-1, -1, "both pairs of bounds")):
        x, y = (l, r)[::h], (b, t)[::v]
        shape(prog, rep, E, "BoundingBox", f"a box with {what} the other way round", lambda k: [num(n) for n in ("left", "right", "bottom", "top")],
              [(l, t), (r, t), (r, b), (l, b)], [(x[1] - x[0], (1,)), (y[1] - y[0], (1,))], {"min_x": x[0], "max_x": x[1], "min_y": y[0], "max_y": y[1]})
    poly_ = lambda n: (lambda k: [k.st.mklist([Tup((num(c + ".x"), num(c + ".y"))) for c in n])])
    pts = lambda n: [(A(c + ".x"), A(c + ".y")) for c in n]
    shape(prog, rep, E, "Polygon", "a polygon of 3 corners", poly_("pqr"), pts("pqr"), names="pqr")
    # more corners: one order of their coordinates at a time
    for n in (4, 5) if rep.tier == "quick" else (4, 5, 6):
        names = "pqrstu"[:n]
        rots = [tuple(names[(i + j) % n] for i in range(n)) for j in range(n)]
        rots += [tuple(reversed(r)) for r in rots]
        ys = rots if rep.tier == "quick" or n == 6 else list(itertools.permutations(names))
        xs = rots[:1] + rots[n - 1:n + 1] if rep.tier == "quick" else rots
        for x, y in itertools.product(xs, ys):
            facts = [(A(f"{q}.{a}") - A(f"{p}.{a}"), (1,)) for a, o in (("x", x), ("y", y)) for p, q in itertools.combinations(o, 2)]
            shape(prog, rep, E, "Polygon", f"a polygon of {n} corners", poly_(names), pts(names), facts, names=names if x == y == rots[0] else "")
    circle(prog, rep)
    calls(prog, rep)
    observed(prog, rep)
    for part in ("closing", "clipping"):
        edges.part(E, part)
    for props, ok, rule, where, what, detail in E.obs:
        if "C17" in props:
            rep.ob(ok, rule, where, what, detail)
    for I in E.interps:
        rep.interp(I, 1)
