"""Interpretation of the geometric kernels over symbolic coordinates.

`kernels(prog)` runs each kernel once and yields Kernel records: the function, the partitions (state, result),
the numeric comparisons made on the way.  C14, C15 and C16 put different obligations on the same records.
"""
import ast
import itertools

from .lib import *
from .interp import Vec, Index
from .poly import ATOM, POLY1, Poly
from . import poly

Z, P, N = frozenset((0,)), frozenset((1,)), frozenset((-1,))


class GeomClient(Client):
    def __init__(self):
        self.cmps = []          # (where, r, facts, kinds)
        self.nums = []
        self.truths = []
        self.mixed = []

    def on_compare(self, I, st, op, a, b, node):
        na, nb = tonum(a), tonum(b)
        if na is not None and nb is not None:
            self.cmps.append((I.where(node), st.facts.norm(na.r - nb.r), na, nb))

    def on_num_truth(self, I, st, n, node):
        self.truths.append((I.where(node), tonum(n), I.stack[-1].qual if I.stack else "?"))

    def on_num(self, I, st, what, v, node):
        if what == "mix":
            self.mixed.append(I.where(node))
        return v if what not in ("mix", "div0", "maydiv0", "sqrtarg") else None


class Kernel:
    """one interpreted kernel"""

    def __init__(self, name, where, I, cl, out, exc, **data):
        self.name, self.where, self.I, self.cl, self.out, self.exc = name, where, I, cl, out, exc
        self.__dict__.update(data)


def setup(prog, **opts):
    cl = GeomClient()
    for k, v in opts.items():
        setattr(cl, k, v)
    I = Interp(prog, cl)
    return I, cl, State()


def fact(st, r, signs):
    if not st.facts.assume(r, frozenset(signs)):
        raise Unsupported("inconsistent set-up of a kernel")


def fn_of(prog, cls, name):
    c = prog.cls(cls)
    m = c.method(name) or c.getter(name)
    if m is None:
        raise Unsupported(f"documented function {cls}.{name} not found")
    return m


def xy(n):
    return A(n + ".x"), A(n + ".y")


def cross(ux, uy, vx, vy):
    return ux * vy - uy * vx


# ------------------------------------------------------------------ kernels
def k_circle(prog):
    I, cl, st = setup(prog)
    pts = [point(I, st, n) for n in "abc"]
    nodes = []
    for p in pts:
        arc = make(I, st, "Arc", p)[1]
        nodes.append(make(I, st, "LeafNode", arc)[1])
    f = fn_of(prog, "CircleEvent", "create_circle_event")
    out, exc = I.run(st, Fn(f), nodes + [num("l")])
    return Kernel("circle through three sites", where_fn(f), I, cl, out, exc, nodes=nodes, pts=pts)


def k_collinear(prog):
    I, cl, st = setup(prog)
    pts = [point(I, st, n) for n in "abc"]
    f = fn_of(prog, "CircleEvent", "create_circle")
    out, exc = I.run(st, Fn(f), pts)
    return Kernel("circle of three coordinates", where_fn(f), I, cl, out, exc, pts=pts)


def k_breakpoint(prog, max_y=True):
    I, cl, st = setup(prog)
    i, j = point(I, st, "i"), point(I, st, "j")
    bp = make(I, st, "Breakpoint", Tup((i, j)))[1]
    fact(st, A("i.y") - A("l"), (0, 1))
    fact(st, A("j.y") - A("l"), (0, 1))
    f = fn_of(prog, "Breakpoint", "get_intersection")
    out, exc = I.run(st, Fn(f), [bp, num("l")], {"max_y": num("top.y")} if max_y else {})
    return Kernel("breakpoint of two parabolas" + (" (clipped)" if max_y else ""), where_fn(f), I, cl, out, exc, max_y=max_y)


def k_intersects(prog):
    I, cl, st = setup(prog)
    i, j = point(I, st, "i"), point(I, st, "j")
    bp = make(I, st, "Breakpoint", Tup((i, j)))[1]
    f = fn_of(prog, "Breakpoint", "does_intersect")
    out, exc = I.run(st, Fn(f), [bp])
    return Kernel("does a breakpoint exist", where_fn(f), I, cl, out, exc)


def k_segment(prog):
    I, cl, st = setup(prog)
    o, e, p, q = (point(I, st, n, cls="Coordinate") for n in "oepq")
    f = fn_of(prog, "Algebra", "get_intersection")
    out, exc = I.run(st, Fn(f), [o, e, p, q])
    return Kernel("intersection of a ray with a polygon side", where_fn(f), I, cl, out, exc)


def k_clockwise(prog):
    I, cl, st = setup(prog)
    a, b, c = (point(I, st, n) for n in "abc")
    m = point(I, st, "m", cls="Coordinate")
    f = fn_of(prog, "Algebra", "check_clockwise")
    out, exc = I.run(st, Fn(f), [a, b, c, m])
    return Kernel("orientation of three sites around a centre", where_fn(f), I, cl, out, exc)


def k_angle(prog):
    I, cl, st = setup(prog)
    a, m = point(I, st, "a"), point(I, st, "m")
    f = fn_of(prog, "Algebra", "calculate_angle")
    out, exc = I.run(st, Fn(f), [a, m])
    return Kernel("angle of a point seen from a centre", where_fn(f), I, cl, out, exc)


def k_distance(prog):
    I, cl, st = setup(prog)
    a, m = point(I, st, "a"), point(I, st, "b")
    f = fn_of(prog, "Algebra", "distance")
    out, exc = I.run(st, Fn(f), [a, m])
    return Kernel("distance of two points", where_fn(f), I, cl, out, exc)


def polygon_object(prog, I, st, n):
    """a polygon with n symbolic corners, in the order in which they were ordered by the constructor"""
    cl = I.c
    poly_ = make_polygon(I, st, n)
    return poly_


class NoOrder:
    """intercept: the ordering of corners is the subject of another property"""


def make_polygon(I, st, n, names="pqrstu"):
    """Run the constructor on n symbolic corners.  The ordering of the corners by angle and the extents are
    decided elsewhere: sorted() keeps the order, min/max are symbolic."""
    old = I.c.on_ext

    def keep(I_, st_, path, args, kwargs, node):
        if path == "builtins.sorted":
            for x, segs, _ in I_.iter_segs(st_, args[0], node):
                return [(x, x.mklist(segs))]
        if path in ("builtins.min", "builtins.max") and len(args) == 1 and not kwargs:
            return [(st_, Num(R.atom(fresh("ext")), "dec"))]
        return old(I_, st_, path, args, kwargs, node)
    I.c.on_ext = keep
    oldi = I.c.intercept

    def sort_method(I_, st_, fn, args, kwargs, node):
        from .interp import Meth
        if isinstance(fn, Meth) and fn.name == "sort":
            return [(st_, NONE)]
        return oldi(I_, st_, fn, args, kwargs, node)
    I.c.intercept = sort_method
    try:
        s2, p = make_region(I, st, names[:n])
    finally:
        I.c.on_ext, I.c.intercept = old, oldi
    if s2 is not st:
        for k in State.__slots__:
            setattr(st, k, getattr(s2, k))
    return p


def k_inside(prog, n=3):
    I, cl, st = setup(prog)
    pg = make_polygon(I, st, n)
    z = point(I, st, "z")
    f = fn_of(prog, "Polygon", "inside")
    cl.cmps.clear()
    out, exc = I.run(st, Fn(f), [pg, z])
    return Kernel(f"point in a polygon of {n} corners", where_fn(f), I, cl, out, exc, n=n)


def circle_region(prog, I, st):
    """a bounding circle; the diagram it may create for itself is not part of the kernel"""
    return make(I, st, "BoundingCircle", num("m.x"), num("m.y"), num("r"))[1]


def k_inside_circle(prog):
    I, cl, st = setup(prog)
    fact(st, A("r"), (1,))
    bc = circle_region(prog, I, st)
    z = point(I, st, "z")
    f = fn_of(prog, "BoundingCircle", "inside")
    cl.cmps.clear()
    out, exc = I.run(st, Fn(f), [bc, z])
    return Kernel("point in a bounding circle", where_fn(f), I, cl, out, exc)


def k_line(prog):
    """the line through two points, used to clip at the bounding circle"""
    I, cl, st = setup(prog)
    fact(st, A("r"), (1,))
    bc = circle_region(prog, I, st)
    a, b = point(I, st, "a"), point(I, st, "b")
    f = fn_of(prog, "BoundingCircle", "get_line")
    cl.cmps.clear()
    out, exc = I.run(st, Fn(f), [bc, a, b])
    return Kernel("line through two points", where_fn(f), I, cl, out, exc)


def k_cut_circle(prog):
    """crossings of a line a*x + b*y = c with the bounding circle"""
    I, cl, st = setup(prog)
    fact(st, A("r"), (1,))
    bc = circle_region(prog, I, st)
    f = fn_of(prog, "BoundingCircle", "cut_circle")
    cl.cmps.clear()
    out, exc = I.run(st, Fn(f), [bc, num("la"), num("lb"), num("lc")])
    return Kernel("line cut by the bounding circle", where_fn(f), I, cl, out, exc)


def k_plot(prog):
    I, cl, st = setup(prog)
    s = point(I, st, "s")
    arc = make(I, st, "Arc", s)[1]
    f = fn_of(prog, "Arc", "get_plot")
    out, exc = I.run(st, Fn(f), [arc, num("z.x", "float"), num("l")])
    return Kernel("height of a parabola", where_fn(f), I, cl, out, exc)


def k_area(prog, n):
    I, cl, st = setup(prog)
    site = point(I, st, "s")
    names = "pqrstu"[:n]
    vs = [point(I, st, c, cls="Vertex") for c in names]
    es = [make(I, st, "HalfEdge", site, origin=v)[1] for v in vs]
    for k in range(n):
        setnext(I, st, es[k], es[(k + 1) % n])
    for s2 in I.setattr(st, site, "first_edge", es[0], None):
        st = s2
    f = fn_of(prog, "Point", "area")
    out, exc = I.run(st, Fn(f), [site])
    return Kernel(f"area of a cell with {n} corners", where_fn(f), I, cl, out, exc, names=names)


def setnext(I, st, e, n):
    m = I.p.cls("HalfEdge").method("set_next")
    if m is None:
        raise Unsupported("HalfEdge.set_next not found")
    out, exc = I.run(st, Fn(m), [e, n])
    if len(out) != 1 or exc or out[0][0] is not st:
        raise Unsupported("HalfEdge.set_next branches")


def k_coords(prog):
    """what a coordinate keeps of the numbers it is given"""
    I, cl, st = setup(prog)
    rows = []
    for kind in ("float", "dec", "int"):
        for cls in ("Coordinate", "Point", "Vertex"):
            s0 = st.copy()
            v = make(I, s0, cls, num("p.x", kind), num("p.y", kind))[1]
            for g in ("x", "y", "xd", "yd"):
                rows.append((cls, kind, g, attr(I, s0, v, g), A("p." + g[0])))
            xy_ = attr(I, s0, v, "xy")
            for g, w in zip("xy", xy_.items if isinstance(xy_, Tup) else (NONE, NONE)):
                rows.append((cls, kind, "xy", w, A("p." + g)))
            for g in ("x", "y", "xd", "yd"):
                for s3 in I.setattr(s0.copy(), v, g, num("q", kind), None):
                    o = "y" if g[0] == "x" else "x"
                    rows.append((cls, kind, g + " assigned", attr(I, s3, v, g[0] + "d"), A("q")))
                    rows.append((cls, kind, g + " assigned, other axis", attr(I, s3, v, o + "d"), A("p." + o)))
            none = make(I, s0, cls, NONE, NONE)[1]
            for g in ("xd", "yd"):
                rows.append((cls, "None", g, attr(I, s0, none, g), None))
    return Kernel("coordinates kept by a point", where_fn(prog.cls("Coordinate").method("__init__")), I, cl, [], [], rows=rows)


def k_sub(prog):
    I, cl, st = setup(prog)
    rows = []
    for cls in ("Coordinate", "Point"):
        m = prog.cls(cls).method("__sub__")
        if m is None:
            continue
        s2 = st.copy()
        a, b = point(I, s2, "a", cls=cls), point(I, s2, "b", cls=cls)
        out, exc = I.run(s2, Fn(m), [a, b])
        rows.append((cls, m, out, exc))
    return Kernel("difference of coordinates", "Coordinate.__sub__", I, cl, [], [], rows=rows)


def area2(names):
    """twice the signed shoelace area"""
    t = R.const(0)
    for k, c in enumerate(names):
        d = names[(k + 1) % len(names)]
        t = t + A(c + ".x") * A(d + ".y") - A(d + ".x") * A(c + ".y")
    return t


# ------------------------------------------------------------------ covariance
def degree(r):
    """degree of homogeneity of a rational expression in lengths; None = mixed"""
    a, b = pdegree(r.n), pdegree(r.d)
    if a is None or b is None:
        return None
    if a == "any":
        return "any"
    return a - b


def pdegree(p):
    if p.is_zero():
        return "any"
    ds = set()
    for m in p.t:
        d = 0
        for a, e in m:
            k = adegree(a)
            if k is None:
                return None
            if k == "any":
                return "any"
            d += k * e
        ds.add(d)
    return ds.pop() if len(ds) == 1 else None


def adegree(a):
    from fractions import Fraction
    if a == poly.INF:
        return "any"
    d = ATOM.get(a)
    if d is None:
        return 1
    if d[0] == "sqrt":
        k = degree(d[1])
        return k if k in (None, "any") else Fraction(k) / 2
    name, args = d[1], [x for x in d[2] if isinstance(x, R)]
    ks = [degree(x) for x in args]
    if None in ks:
        return None
    ks = [k for k in ks if k != "any"]
    if name in ("abs", "float", "min", "max", "norm", "neg"):
        return ks[0] if len(set(ks)) == 1 else ("any" if not ks else None)
    if name == "atan2":
        return 0 if len(set(ks)) <= 1 else None
    return 0 if set(ks) <= {0} else None


def shifted(r, axis):
    """substitute a translation along one axis"""
    m = {}
    for a in r.deep_atoms():
        if axis == "x" and a.endswith(".x"):
            m[a] = A(a) + A("#t")
        elif axis == "y" and (a.endswith(".y") or a == "l"):
            m[a] = A(a) + A("#t")
    return r.subst(m) if m else r


def k_cleanup_cmp(prog):
    """the test that decides whether an edge has zero length"""
    I, cl, st = setup(prog)
    a, b = point(I, st, "a", cls="Vertex"), point(I, st, "b", cls="Vertex")
    t = make(I, st, "HalfEdge", NONE, origin=b)[1]
    e = make(I, st, "HalfEdge", NONE, origin=a, twin=t)[1]
    for v, h in ((a, e), (b, t)):
        l = attr(I, st, v, "connected_edges")
        for s2, _ in I.call(st, attr(I, st, l, "append"), [h], {}, None):
            st = s2
    bb = make_polygon(I, st, 3)
    alg = make(I, st, "Algorithm", bb)[1]
    for f_, v in ((prog.field_of("Algorithm", "edges"), st.mklist([e])),
                  (prog.field_of("Algorithm", "vertices"), st.mklist([a, b], "set"))):
        for s2 in I.setattr(st, alg, f_, v, None):
            st = s2
    f = fn_of(prog, "Algorithm", "clean_up_zero_length_edges")
    cl.cmps.clear()
    out, exc = I.run(st, Fn(f), [alg])
    return Kernel("zero-length test", where_fn(f), I, cl, out, exc, alg=alg, a=a, b=b, e=e, t=t)


def exact(v):
    if isinstance(v, K):
        from decimal import Decimal
        return isinstance(v.v, (int, Decimal)) and not isinstance(v.v, bool)
    n = tonum(v)
    if n is None:
        return False
    if n.r.is_const() or n.r.atoms() == {INF}:
        return True
    return n.kind in ("dec",) and not n.inexact


def as_given(v):
    """exact, and not even rounded to the precision of decimal arithmetic"""
    return exact(v) and not getattr(v, "taint", None)
