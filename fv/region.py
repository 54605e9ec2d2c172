"""Clipping the edges at the bounding region and closing the diagram along it (C09, C10, C11, C17, C20, C21)."""
import itertools

from .lib import *
from .edges import Kit, PolyClient

TURN = {"degrees": 360, "": None}


def callee(fv):
    f = fv.f.f if isinstance(fv, Bound) and isinstance(fv.f, Fn) else (fv.f if isinstance(fv, Fn) else None)
    return f, ([fv.self_] if isinstance(fv, Bound) else [])


def arguments(f, first, args, kwargs):
    """positional list of the arguments by the function's parameters (None where absent)"""
    a = first + list(args)
    names = [x.arg for x in f.node.args.args]
    for n in names[len(a):]:
        a.append(kwargs.get(n))
    return a


class RegionClient(PolyClient):
    """keeps sorting order; answers the geometric questions by the scene's plan"""

    def __init__(self, prog):
        super().__init__()
        self.p = prog
        self.plan = None
        self.on = {}
        for cls, name in (("Polygon", "inside"), ("BoundingCircle", "inside"), ("Algebra", "get_intersection"), ("Algebra", "distance"),
                          ("Breakpoint", "get_intersection"), ("BoundingCircle", "cut_circle")):
            f = prog.cls(cls).method(name)
            if f is None:
                raise Unsupported(f"anchor {cls}.{name} not found")
            self.on[id(f.node)] = name if cls != "Breakpoint" else "breakpoint"

    def intercept(self, I, st, fv, args, kwargs, node):
        r = super().intercept(I, st, fv, args, kwargs, node)
        if r is not None or self.plan is None:
            return r
        f, first = callee(fv)
        k = f and self.on.get(id(f.node))
        if not k:
            return None
        return getattr(self.plan, "on_" + k)(I, st, arguments(f, first, args, kwargs), node)


# ---------------------------------------------------------------- the order along the boundary
def turning(r, dx, dy):
    """how `r` changes when (dx, dy) turns counter-clockwise: +1, -1 times a positive factor; None if not understood.
    Returns (coefficient, unit)"""
    from .poly import ATOM, POLY1
    if r.d != POLY1:
        return None
    coef, unit = 0, None
    for mono, c in r.n.t.items():
        if not mono:
            continue
        if len(mono) != 1 or mono[0][1] != 1:
            return None
        d = ATOM.get(mono[0][0])
        if d is None or d[0] == "sqrt":
            return None
        name, args = d[1], d[2]
        if name == "atan2":
            t = orientation(args, dx, dy), "rad"
        elif name in ("degrees", "mod", "float", "dec"):
            t = turning(args[0], dx, dy)
        else:
            return None
        if t is None or t[0] is None:
            return None
        if name == "degrees":
            t = (t[0], "deg")
        if name == "mod":
            full = args[1].const_value() if args[1].is_const() else None
            if full is None or abs(float(full) - (360 if t[1] == "deg" else 6.283185307179586)) > 1e-9:
                return None
        if unit not in (None, t[1]):
            return None
        coef, unit = coef + c * t[0], t[1]
    return (coef, unit) if coef in (1, -1) else None


def orientation(args, dx, dy):
    """+1 if atan2(*args) grows as (dx, dy) turns counter-clockwise, -1 if it falls"""
    m = []
    for a in args:
        for s in (1, -1):
            for k, v in (((0, s), dx), ((1, s), dy)):
                if (a - v * R.const(s)).is_zero():
                    m.append(k)
    if len(m) != 2 or m[0][0] == m[1][0]:
        return None
    (i, s), (j, t) = m          # args = (s * (dx, dy)[i], t * (dx, dy)[j]); the vector is (args[1], args[0])
    return s * t if i == 1 else -s * t


def pivot(r, v, corners):
    """the point (x, y) around which the angle in `r` is measured for the position `v`; None if not understood"""
    from .poly import ATOM, POLY1
    if r.d != POLY1:
        return None
    for mono in r.n.t:
        d = ATOM.get(mono[0][0]) if mono else None
        if d is None or d[0] == "sqrt":
            continue
        if d[1] == "atan2":
            got = [None, None]
            for a in d[2]:
                for i in (0, 1):
                    for s in (1, -1):
                        c = v[i] - a * R.const(s)
                        mine = v[0].deep_atoms() | v[1].deep_atoms()
                        w = corners and weights(c, [f"{n}.{'xy'[i]}" for n in corners])
                        if not (c.deep_atoms() & mine) or (w and min(w) >= 0):
                            got[i] = c
            return got if None not in got else None
        for a in d[2]:
            got = pivot(a, v, corners)
            if got:
                return got
    return None


def weights(r, atoms):
    """coefficients of `atoms` in r = sum of coefficient * atom; None if r is not of that form"""
    from .poly import POLY1
    if r.d != POLY1:
        return None
    w = dict.fromkeys(atoms, 0)
    for mono, c in r.n.t.items():
        if len(mono) != 1 or mono[0][1] != 1 or mono[0][0] not in w:
            return None
        w[mono[0][0]] = c
    return [w[a] for a in atoms]


def interior(E, k, b, c, st, corners):
    """is the point c strictly inside every region of this kind?"""
    if corners:
        wx, wy = (weights(r, [f"{n}.{a}" for n in corners]) for r, a in zip(c, "xy"))
        return wx is not None and wx == wy and all(x > 0 for x in wx) and sum(wx) == 1
    m = k.get(b, "center", st)
    return all((r_of(k.get(m, a, st)) - r).is_zero() for a, r in zip(("xd", "yd"), c))


def order_obligation(E, k, b, v, kv, rev, st, where, corners):
    xy = [r_of(k.get(v, a, st)) for a in ("xd", "yd")]
    if isinstance(kv, Tup) and kv.items:
        kv = kv.items[0]
    n = r_of(kv)
    c = pivot(n, xy, corners) if n is not None else None
    t = turning(n, *[a - m for a, m in zip(xy, c)]) if c else None
    if t is None:
        raise Unsupported(f"the sorting key at {where} is not an angle around a point: {kv}")
    E.add("C09 C11 C17", interior(E, k, b, c, st, corners), "order along the boundary", where,
          "the boundary is ordered by the angle around a point strictly inside the region", c)
    sign = t[0] * (-1 if rev == K(True) else 1)
    E.add("C09 C11 C17", sign == -1, "order along the boundary", where, "the vertices on the boundary are followed clockwise", kv)


# ---------------------------------------------------------------- closing
class Closing:
    def __init__(self, E, region="Polygon"):
        self.E, self.p, self.region = E, E.p, region
        f = E.p.cls(region).method("finish_polygon")
        if f is None:
            raise Unsupported(f"anchor {region}.finish_polygon not found")
        self.f, self.w = f, where_fn(f)

    # patterns of the vertices along the boundary: C corner, X clipped end; cells: the label before the first X, and
    # after each X; chords: pairs of X that are the two ends of one edge
    PATTERNS = [
        ("CCC", "a", ()), ("CCCC", "a", ()),
        ("XCXCC", "ab", ((0, 1),)), ("CXCXC", "ab", ((0, 1),)), ("CCXXC", "ab", ((0, 1),)), ("XXCCC", "ab", ((0, 1),)), ("CXXCC", "ab", ((0, 1),)),
        ("XCXCX", "abc", ()), ("CXCXCX", "abc", ()), ("XXXCCC", "abc", ()), ("CCXXXC", "abc", ()), ("CXXCXC", "abc", ()),
        ("CXXCXXC", "abcb", ((0, 3), (1, 2))), ("XXCCXXCC", "abcb", ((0, 3), (1, 2))), ("CXCXCXCX", "abcd", ()),
        ("CXXXXCC", "abcd", ()), ("XCXXCCX", "abcd", ()), ("CCCXCXXX", "abcd", ()),
    ]
    ROUND = [("XX", "ab", ((0, 1),)), ("XXX", "abc", ()), ("XXXX", "abcb", ((0, 3), (1, 2))), ("XXXX", "abcd", ())]

    def run(self):
        pats = self.PATTERNS if self.region != "BoundingCircle" else self.ROUND
        if self.E.tier == "thorough":
            pats = list(pats)
            if self.region != "BoundingCircle":
                for n in (3, 4, 5):
                    for m in (2, 3, 4, 5):
                        for xs in itertools.combinations(range(n + m), m):
                            w = "".join("X" if i in xs else "C" for i in range(n + m))
                            q = (w, "abcdefg"[:m], ((0, 1),) if m == 2 else ())
                            if q not in pats and n + m <= 8:
                                pats.append(q)
            else:
                pats += [("X" * n, "abcdefgh"[:n], ()) for n in (5, 6)]
        for word, cells, chords in pats:
            for firsts in ((True, False) if len(word) < 7 else (False,)):
                self.one(word, cells, chords, firsts)

    def one(self, word, cells, chords, firsts):
        E = self.E
        cl = RegionClient(self.p)
        k = E.kit(cl)
        n = len(word)
        what = f"boundary {word}, cells {cells}" + (f", {len(chords)} edges across" if chords else "")
        sites = {c: k.mk("Point", num(c + ".x"), num(c + ".y")) for c in sorted(set(cells))}
        if self.region == "Polygon":
            b = k.polygon()
        else:
            b = k.mk(self.region, num("o.x"), num("o.y"), num("r"))
        cl.sorts.clear()
        W = [k.vertex(f"w{i}") for i in range(n)]
        X = [i for i in range(n) if word[i] == "X"]
        m = len(X)
        # cell before X[j] is cells[j-1] for j > 0, and cells[0] before X[0] and after the last
        after = [cells[(j + 1) % m] for j in range(m)] if m else []
        before = [cells[j] for j in range(m)] if m else []
        H, T, given, extra = [None] * m, [None] * m, [], []
        for i, j in chords:
            H[i] = k.mk("HalfEdge", sites[before[i]], origin=W[X[i]])
            H[j] = k.mk("HalfEdge", sites[before[j]], origin=W[X[j]], twin=H[i])
            T[i], T[j] = H[j], H[i]
            given.append(H[i])
        for j in range(m):
            if H[j] is None:
                u = k.vertex(f"u{j}")
                H[j] = k.mk("HalfEdge", sites[before[j]], origin=W[X[j]])
                T[j] = k.mk("HalfEdge", sites[after[j]], origin=u, twin=H[j])
                k.push(k.get(u, "connected_edges"), T[j])
                given.append(H[j] if j % 2 else T[j])
                extra.append(u)
            k.push(k.get(W[X[j]], "connected_edges"), H[j])
        out_v = [k.vertex(f"z{j}") for j in range(2)]
        for j in range(m):
            if firsts and k.get(sites[before[j]], "first_edge") == NONE:
                k.put(sites[before[j]], "first_edge", H[j])
        had = {c: k.get(s, "first_edge") for c, s in sites.items()}
        k.put(b, "polygon_vertices", k.st.mklist(W))
        cl.plan = _Inside(set(extra))
        order = extra[:1] + out_v[:1] + extra[1:] + out_v[1:]
        exc0 = k.st.mklist(order, "set")
        lst = k.st.mklist(given)
        names = sorted(sites)
        out, exc = k.I.run(k.st, Bound(Fn(self.f), b), [lst, exc0, k.st.mklist([sites[c] for c in names])])
        for s, e in exc:
            E.add("C10 C11 C09", False, "no exception", self.w, what, e)
        seen = 0
        for st, v in out:
            E.n += 1
            if not (isinstance(v, Tup) and len(v.items) == 2):
                E.add("C10", False, "result", self.w, f"{what}: edges and vertices are returned", v)
                continue
            seen += self.after(k, st, v, what, word, sites, before, after, W, X, H, T, given, extra, had, cells)
        E.add("C11", seen, "boundary cells", self.w, f"{what}: the boundary begins with the cell its first vertex belongs to", "")
        missing = [i for i, x in enumerate(W) if not any(s[0] == x for s in cl.sorts)]
        if missing and not self.sorted_before(word):
            E.add("C09 C11 C17", False, "order along the boundary", self.w, "the vertices on the boundary are put in order before the boundary is followed", missing)
        for v, kv, rev, st, where in cl.sorts:
            order_obligation(E, k, b, v, kv, rev, st, where, "pqr" if self.region == "Polygon" else "")

    def sorted_before(self, word):
        """does the clipping leave the vertices in order?"""
        cl = RegionClient(self.p)
        k = Kit(self.p, cl)
        if self.region == "Polygon":
            b = k.polygon()
        else:
            b = k.mk(self.region, num("o.x"), num("o.y"), num("r"))
        k.put(b, "polygon_vertices", k.st.mklist([k.vertex("w0")]))
        cl.sorts.clear()
        out, exc = k.I.run(k.st, Bound(Fn(k.method(b, "finish_edges")), b), [k.st.mklist()], {"vertices": k.st.mklist(), "points": k.st.mklist(), "event_queue": NONE})
        for st, _ in out:
            now = k.segs(st, k.get(b, "polygon_vertices", st))
            if any(not any(x[0] == v for x in cl.sorts) for v in now):
                return False
        return self.region == "Polygon" or cl.sorted_calls > 0

    def after(self, k, st, v, what, word, sites, before, after, W, X, H, T, given, extra, had, cells):
        E, w = self.E, self.w
        g = lambda r, n: k.get(r, n, st)
        n, m = len(word), len(X)
        edges, verts = k.segs(st, v.items[0]), k.segs(st, v.items[1])
        E.add("C10", edges[:len(given)] == given or all(edges.count(x) == 1 for x in given), "edges kept", w, f"{what}: the given edges are kept", "")
        new = [e for e in edges if e not in given]
        E.add("C10 C09", len(new) == n and len(set(map(str, new))) == n, "boundary edges", w, f"{what}: one edge is added for each piece of the boundary", len(new))
        if len(new) != n:
            return 1
        at = {}
        for e in new:
            t = g(e, "twin")
            E.add("C09", isinstance(t, Ref) and g(t, "twin") == e, "twins", w, f"{what}: a boundary edge and its twin are each other's twins", t)
            if not isinstance(t, Ref):
                return 1
            inner, outer = (e, t) if g(e, "incident_point") != NONE else (t, e)
            E.add("C11", g(outer, "incident_point") == NONE and g(inner, "incident_point") != NONE, "cells of an edge", w, f"{what}: the outer side of a boundary edge borders no cell, the inner side one", "")
            o = g(inner, "origin")
            if o in W:
                at[W.index(o)] = (inner, outer)
        E.add("C09 C10", len(at) == n, "ends", w, f"{what}: a boundary edge begins in each vertex of the boundary", sorted(at))
        if len(at) != n:
            return 1
        # which cell does the boundary begin with?
        if word[0] == "C":
            c0 = g(at[0][0], "incident_point")
            mine = [c for c, s in sites.items() if s == c0]
            bad = []
            for c in mine:
                for d in sites:
                    if d != c:
                        r = sum(((R.atom(f"{c}.{a}") - R.atom(f"w0.{a}")) ** 2 - (R.atom(f"{d}.{a}") - R.atom(f"w0.{a}")) ** 2 for a in "xy"), R.const(0))
                        if 1 in st.facts.sign(r) and 1 in st.facts.sign(root(c) - root(d)):
                            bad.append(f"{d} may be closer than {c}")
            E.add("C11", mine and not bad, "boundary cells", w, f"{what}: the boundary begins with the cell of the site closest to its first vertex", bad or c0)
            if m and c0 != sites[cells[0]]:
                return 0
        j = -1
        bad9, bad11, bad10 = [], [], []
        nm = {r.oid: f"b{i}" for i, (r, _) in at.items()}
        nm.update({r.oid: f"o{i}" for i, (_, r) in at.items()})
        nm.update({r.oid: f"h{i}" for i, r in enumerate(H)})
        nm.update({r.oid: f"t{i}" for i, r in enumerate(T) if r not in H})
        N = lambda r: nm.get(r.oid, str(r)) if isinstance(r, Ref) else str(r)
        for i in range(n):
            e, o = at[i]
            if word[i] == "X":
                j += 1
            cell = (after[j] if j >= 0 else cells[0]) if m else None
            end = (i + 1) % n
            if g(o, "origin") != W[end]:
                bad9.append(f"the piece from vertex {i} ends in {g(o, 'origin')}")
            if m:
                if g(e, "incident_point") != sites[cell]:
                    bad11.append(f"the piece from vertex {i} borders another cell")
            want = H[(j + 1) % m] if word[end] == "X" else at[end][0]
            if g(e, "next") != want or g(want, "prev") != e:
                bad9.append(f"piece {i} is followed by {N(g(e, 'next'))} instead of {N(want)} (whose previous is {N(g(want, 'prev'))})")
            if word[i] == "X":
                if g(T[j], "next") != e or g(e, "prev") != T[j]:
                    bad9.append(f"{N(T[j])} is followed by {N(g(T[j], 'next'))} instead of piece {i}")
            con = k.segs(st, g(W[i], "connected_edges"))
            wish = [e, at[(i - 1) % n][1]] + ([H[j]] if word[i] == "X" else [])
            if sorted(map(str, con)) != sorted(map(str, wish)):
                bad10.append(f"vertex {i} lists {[N(x) for x in con]} instead of {[N(x) for x in wish]}")
        E.add("C09", not bad9, "links", w, f"{what}: the edges follow one another along the boundary and into the clipped edges", bad9)
        E.add("C11", not bad11, "boundary cells", w, f"{what}: each piece of the boundary borders the cell next to it", bad11)
        E.add("C10", not bad10, "connected edges", w, f"{what}: each vertex on the boundary lists the edges that begin there", bad10)
        bad = []
        inner = {g(e, "incident_point") for e, _ in at.values()}
        for c, s in sites.items():
            fe = g(s, "first_edge")
            if had[c] != NONE and fe != had[c]:
                bad.append(f"{c} had a first edge")
            if s in inner and (not isinstance(fe, Ref) or g(fe, "incident_point") != s):
                bad.append(f"{c} has first edge {N(fe)}")
        E.add("C11", not bad, "first edge", w, f"{what}: each cell at the boundary has a first edge of its own", bad)
        ok = all(verts.count(x) == 1 for x in W) and all(verts.count(x) == 1 for x in extra) and len(verts) == len(W) + len(extra)
        E.add("C10", ok, "vertices", w, f"{what}: the vertices are those on the boundary and those inside, each once", len(verts))
        return 1


def root(c):
    """the distance of site c from the first vertex"""
    return sqrt((R.atom(f"{c}.x") - R.atom("w0.x")) ** 2 + (R.atom(f"{c}.y") - R.atom("w0.y")) ** 2)


class _Inside:
    """plan: which of the existing vertices are inside"""

    def __init__(self, inside):
        self.inside = inside

    def on_inside(self, I, st, a, node):
        return [(st, K(a[1] in self.inside))]

    def __getattr__(self, n):
        if n.startswith("on_"):
            return lambda *a: None
        raise AttributeError(n)


# ---------------------------------------------------------------- clipping
class Scene:
    """one edge on a line along an axis: end 0 at the origin of the line, end 1 at L; crossings at t_i"""

    def __init__(self, axis, kinds, crossings, flip):
        self.axis, self.kinds, self.crossings, self.flip = axis, kinds, crossings, flip
        self.inside_, self.bps, self.sides, self.bad, self.evals = set(), {}, [], [], []
        self.T = {}

    def at(self, t):
        """coordinates of the point at parameter t"""
        x, y = R.atom("o.x"), R.atom("o.y")
        return (Num(x + t, "dec"), Num(y, "dec")) if self.axis == "x" else (Num(x, "dec"), Num(y + t, "dec"))

    def t(self, I, st, ref):
        if not isinstance(ref, Ref):
            return None
        x, y = (r_of(attr(I, st, ref, a)) for a in ("xd", "yd"))
        if x is None or y is None:
            return None
        x, y = x - R.atom("o.x"), y - R.atom("o.y")
        if self.axis == "y":
            x, y = y, x
        return x if y.is_zero() else None

    def on_inside(self, I, st, a, node):
        return [(st, K(a[1] in self.inside_))]

    def on_breakpoint(self, I, st, a, node):
        a = a + [None] * 3
        if a[0] not in self.bps:
            return None
        self.evals.append((a[1], a[2], st.facts.copy(), I.where(node)))
        s2, v = make(I, st, "Coordinate", *self.at(self.bps[a[0]]))
        return [(s2, v)]

    def on_distance(self, I, st, a, node):
        p, q = (self.t(I, st, x) for x in a[:2])
        if p is None or q is None:
            return None
        out = []
        for s in (1, -1, 0):
            x = st.copy()
            if x.facts.assume(p - q, frozenset((s,))):
                out.append((x, Num((p - q) * R.const(s), "dec")))
        return out

    def on_get_intersection(self, I, st, a, node):
        o, e, p, q = a[:4]
        if NONE in (o, e):
            return [(st, NONE)]
        to, te = self.t(I, st, o), self.t(I, st, e)
        if to is None or te is None:
            self.bad.append(f"the crossing is sought on another line than the edge's own ({I.where(node)})")
            return [(st, NONE)]
        n = len(self.sides)
        i = next((i for i in range(n) if {p, q} == {self.sides[i], self.sides[(i + 1) % n]}), None)
        if i is None:
            def c(r):
                return tuple(repr(r_of(attr(I, st, r, z))) for z in ("xd", "yd"))
            i = next((i for i in range(n) if {c(p), c(q)} == {c(self.sides[i]), c(self.sides[(i + 1) % n])}), None)
        if i is None:
            self.bad.append(f"the crossing is sought with something that is no side of the region ({I.where(node)})")
            return [(st, NONE)]
        tq = self.T.get(i)
        if tq is None:
            return [(st, NONE)]
        out = []
        for s1 in (1, 0, -1):
            for s2 in (1, 0, -1):
                x = st.copy()
                if x.facts.assume(te - to, frozenset((s1,))) and x.facts.assume(tq - to, frozenset((s2,))):
                    if s1 * s2 > 0:
                        x, v = make(I, x, "Coordinate", *self.at(tq))
                        out.append((x, v))
                    else:
                        out.append((x, NONE))
        return out

    def on_cut_circle(self, I, st, a, node):
        if not self.T:
            return [(st, Tup((NONE, NONE)))]
        vs = []
        for i in sorted(self.T):
            st, v = make(I, st, "Point", *self.at(self.T[i]))
            vs.append(v)
        return [(st, Tup(tuple(vs)))]


class Clipping:
    def __init__(self, E, region="Polygon"):
        self.E, self.p, self.region = E, E.p, region
        f = E.p.cls(region).method("finish_edges")
        if f is None:
            raise Unsupported(f"anchor {region}.finish_edges not found")
        self.f, self.w = f, where_fn(f)

    def plans(self):
        """(kinds of the two ends, crossing classes by side)"""
        if self.region == "BoundingCircle":
            # a circle's two crossings always come together
            one = [{0: "on", 1: "past"}, {0: "past", 1: "on"}, {0: "on", 1: "before"}, {0: "before", 1: "on"}]
            two = [{}, {0: "on", 1: "on"}, {0: "past", 1: "past"}, {0: "before", 1: "before"}]
        else:
            one = [{i: "on"} for i in range(3)] + [{0: "on", 1: "past"}, {1: "on", 0: "past"}, {2: "on", 1: "past"}, {0: "on", 2: "before"},
                                                  {0: "on", 1: "on", 2: "on"}]
            two = [{}, {0: "on", 1: "on"}, {1: "on", 2: "on"}, {0: "on", 2: "on"}, {0: "past", 1: "past"}, {1: "before", 2: "before"},
                   {0: "on"}, {2: "on"}, {0: "on", 1: "past"}, {1: "before", 2: "on"}]
        for outer in ("vertex", "breakpoint"):
            for c in one:
                yield ("inside", outer), c
        for c in two:
            for a, b in (("vertex", "vertex"), ("vertex", "breakpoint"), ("breakpoint", "breakpoint")):
                if self.region == "BoundingCircle" and not c and False:
                    continue
                yield (a, b), c
        yield ("inside", "inside"), {}

    def run(self):
        for kinds, crossings in self.plans():
            for axis in ("x", "y"):
                for flip in (False, True):
                    self.one(axis, kinds, crossings, flip)
        self.several()

    def region_of(self, k):
        if self.region == "Polygon":
            b = k.polygon()
            sides = k.segs(k.st, k.get(b, "points"))
        else:
            k.st.facts.assume(R.atom("r"), frozenset((1,)))
            b = k.mk(self.region, num("c.x"), num("c.y"), num("r"))
            sides = []
        return b, sides

    def edge(self, k, sc, n=""):
        """build the edge; returns (edge, twin, description)"""
        L = R.atom("L" + n)
        s, u = k.mk("Point", num(f"s{n}.x"), num(f"s{n}.y")), k.mk("Point", num(f"u{n}.x"), num(f"u{n}.y"))
        orgs = []
        for kind, t in zip(sc.kinds, (R.const(0), L)):
            if kind == "breakpoint":
                o = k.mk("Breakpoint", Tup((s, u) if not orgs else (u, s)))
                sc.bps[o] = t
            else:
                o = k.mk("Vertex", *sc.at(t))
                if kind == "inside":
                    sc.inside_.add(o)
            orgs.append(o)
        oa, ob = orgs[::-1] if sc.flip else orgs
        ka, kb = sc.kinds[::-1] if sc.flip else sc.kinds
        e = k.mk("HalfEdge", s, origin=oa)
        t = k.mk("HalfEdge", u, origin=ob, twin=e)
        others = {}
        for h, o, kind, site in ((e, oa, ka, s), (t, ob, kb, u)):
            lst = []
            if kind != "breakpoint":
                x = k.mk("HalfEdge", site, origin=o)
                lst = [x, h]
                k.push(k.get(o, "connected_edges"), *lst)
            p, q = k.mk("HalfEdge", site), k.mk("HalfEdge", site)
            k.do(p, "set_next", h)
            k.do(h, "set_next", q)
            k.put(site, "first_edge", h)
            others[h] = (o, kind, site, lst, p, q)
        return e, t, others

    def facts(self, k, sc, n=""):
        L = R.atom("L" + n)
        k.st.facts.assume(L, frozenset((1,)))
        for i, c in sc.crossings.items():
            t = sc.T[i] = R.atom(f"t{i}")
            if c == "on":
                k.st.facts.assume(t, frozenset((1,)))
                k.st.facts.assume(L - t, frozenset((1,)))
            elif c == "past":
                k.st.facts.assume(t - L, frozenset((1,)))
                k.st.facts.assume(t, frozenset((1,)))
            else:
                k.st.facts.assume(t, frozenset((-1,)))
                k.st.facts.assume(L - t, frozenset((1,)))
        for i, j in itertools.combinations(sc.T, 2):
            k.st.facts.assume(sc.T[i] - sc.T[j], frozenset((1, -1)))

    def one(self, axis, kinds, crossings, flip):
        E = self.E
        cl = RegionClient(self.p)
        k = E.kit(cl)
        b, sides = self.region_of(k)
        sc = Scene(axis, kinds, crossings, flip)
        sc.sides = sides
        self.facts(k, sc)
        e, t, others = self.edge(k, sc)
        cl.plan = sc
        lst = k.st.mklist([e])
        out, exc = k.I.run(k.st, Bound(Fn(self.f), b), [], {"edges": lst, "vertices": k.st.mklist((), "set"), "points": k.st.mklist(), "event_queue": NONE})
        what = f"{self.region}: an edge from {' to '.join(kinds)} with crossings {crossings or 'nowhere'}"
        for s, x in exc:
            E.add("C21 C17", False, "no exception", self.w, what, x)
        on = {i: sc.T[i] for i, c in crossings.items() if c == "on"}
        L = R.atom("L")
        for st, v in out:
            E.n += 1
            g = lambda r, n: k.get(r, n, st)
            res = k.segs(st, v) if isinstance(v, Ref) and st.obj(v).kind == "list" else None
            E.add("C21 C17", res is not None, "result", self.w, f"{what}: the edges are returned as a list", v)
            if res is None:
                continue
            if len(on) == 1 and "inside" not in kinds:
                # an end on the boundary itself: whatever becomes of the edge, it has two ends if it stays
                ends = [g(h, "origin") for h in (e, t)]
                known = all(isinstance(o, Ref) and st.obj(o).cls is self.p.cls("Vertex") and r_of(g(o, "xd")) is not None for o in ends)
                E.add("C21 C10", res.count(e) + res.count(t) <= 1 and (not res or known), "a listed edge has two ends", self.w, f"{what}: an edge that is kept ends in two vertices", ends)
                continue
            keep = kinds == ("inside", "inside") or bool(on)
            E.add("C21 C10", len(res) == int(keep) and all(x in (e, t) for x in res), "drops exactly the edges outside" if not keep else "keeps the edges with a part inside", self.w,
                  f"{what}: the edge is {'kept, listed once' if keep else 'dropped'}", res)
            if keep:
                E.add("C09", g(e, "twin") == t and g(t, "twin") == e, "twins", self.w, f"{what}: the halves stay each other's twins", "")
                E.add("C11", all(g(h, "incident_point") == o[2] and g(o[2], "first_edge") == h for h, o in others.items()), "cells of an edge", self.w, f"{what}: the halves keep their cells", "")
                for h, (o, kind, site, con, p, q) in others.items():
                    now = g(h, "origin")
                    pos = R.const(0) if (h == e) != flip else L
                    if kind == "inside":
                        ok = now == o and k.segs(st, g(o, "connected_edges")) == con
                        E.add("C21 C10", ok, "only outside ends are clipped", self.w, f"{what}: the end inside stays", now)
                        continue
                    isv = isinstance(now, Ref) and st.obj(now).cls is self.p.cls("Vertex") and now != o
                    E.add("C21", isv, "outside ends are clipped", self.w, f"{what}: the end outside is replaced by a vertex", now)
                    if not isv:
                        continue
                    tv = sc.t(k.I, st, now)
                    hit = [i for i, r in on.items() if tv is not None and (tv - r).is_zero()]
                    E.add("C21", hit, "clips at a crossing", self.w, f"{what}: the new end is a crossing of the edge with the boundary", f"at {tv}")
                    if self.region == "BoundingCircle":
                        from .geom import exact
                        for a in ("xd", "yd"):
                            E.add("C16", exact(g(now, a)), "exact arithmetic", self.w, f"{what}: {a} of the new end is that of the crossing, without rounding", g(now, a))
                    if hit:
                        far = frozenset((0, 1)) if pos == L else frozenset((0, -1))
                        me = on[hit[0]]
                        all_ = list(on.values())
                        better = [j for j in on if j != hit[0] and not st.facts.sign(me - on[j]) <= far
                                  and not (upto(st, on[j], me, all_) if pos == L else upto(st, me, on[j], all_))
                                  and 1 in st.facts.sign((pos - me) ** 2 - (pos - on[j]) ** 2)]
                        E.add("C21", not better, "clips where the edge leaves the region", self.w, f"{what}: of several crossings the one nearest to the end outside is taken", [f"t{j} may be nearer than t{hit[0]}" for j in better])
                    E.add("C10", k.segs(st, g(now, "connected_edges")) == [h], "connected edges", self.w, f"{what}: the new vertex lists the clipped edge", "")
                    pv = k.segs(st, g(b, "polygon_vertices"))
                    E.add("C10 C21", pv.count(now) == 1, "vertices", self.w, f"{what}: the new vertex is one of the vertices of the boundary", len(pv))
            else:
                for h, (o, kind, site, con, p, q) in others.items():
                    if kind != "breakpoint":
                        E.add("C10", h not in k.segs(st, g(o, "connected_edges")) or g(h, "origin") != o, "connected edges", self.w, f"{what}: a dropped edge is not listed by its vertex", "")
                    pv = k.segs(st, g(b, "polygon_vertices"))
                    bad = [x for x in pv if st.obj(x).cls is self.p.cls("Vertex") and h in k.segs(st, g(x, "connected_edges"))]
                    E.add("C10", not bad, "connected edges", self.w, f"{what}: no vertex of the boundary lists a dropped edge", bad)
                    E.add("C09", g(p, "next") == q and g(q, "prev") == p, "links", self.w, f"{what}: the neighbours of a dropped edge are linked", "")
                    E.add("C11", g(site, "first_edge") == q, "first edge", self.w, f"{what}: the first edge moves on from a dropped edge", g(site, "first_edge"))
            for why in sc.bad:
                E.add("C21", False, "clips at a crossing", self.w, what, why)
        if "breakpoint" in kinds:
            self.sweep(k, b, sc, what)
        E.add("C21", out, "no exception", self.w, f"{what}: clipping ends", "")

    def sweep(self, k, b, sc, what):
        E = self.E
        if not sc.evals:
            return
        for l, top, facts, where in sc.evals:
            lr = r_of(l) if l is not None else None
            tr = r_of(top) if top is not None and top != NONE else None
            if self.region == "Polygon":
                ext = {n: r_of(k.get(b, n)) for n in ("min_x", "max_x", "min_y", "max_y")}
                w, h = R.atom("#w"), R.atom("#h")
                sub = {}
                for hi, lo, d in (("max_x", "min_x", w), ("max_y", "min_y", h)):
                    a = atom_of(ext[hi])
                    if a is None:
                        raise Unsupported("the extents of a polygon are not those it computed")
                    sub[a] = ext[lo] + d
                bottom, up, diag2 = ext["min_y"], ext["max_y"].subst(sub), w * w + h * h
            else:
                sub = {}
                r, y = R.atom("r"), R.atom("c.y")
                w = h = r
                bottom, up, diag2 = y - r, y + r, r * r * R.const(4)
            f = Facts()
            for a in (w, h):
                f.assume(a, frozenset((1,)))
            ok = lr is not None
            if ok:
                d = bottom - lr.subst(sub)
                ok = f.sign(d) == frozenset((1,)) and -1 not in f.sign(d * d - diag2)
            E.add("C17", ok, "sweep line below the region", where, f"{self.region}: unfinished edges are evaluated with the sweep line further below the region than the region is wide", lr)
            ok = tr is not None and -1 not in f.sign(tr.subst(sub) - up)
            E.add("C17", ok, "top of the region", where, f"{self.region}: breakpoints at infinity are cut above the region", tr)

    def several(self):
        """a list of edges: each is treated by itself and the order is kept"""
        E = self.E
        for pattern in (("in", "out", "in"), ("out", "in", "out"), ("out", "out", "in"), ("in", "in", "in")):
            cl = RegionClient(self.p)
            k = E.kit(cl)
            b, sides = self.region_of(k)
            sc = Scene("x", ("inside", "inside"), {}, False)
            sc.sides = sides
            lst = []
            for i, x in enumerate(pattern):
                sc.kinds = ("inside", "inside") if x == "in" else ("vertex", "vertex")
                self.facts(k, sc, str(i))
                lst.append(self.edge(k, sc, str(i))[0])
            cl.plan = sc
            out, exc = k.I.run(k.st, Bound(Fn(self.f), b), [], {"edges": k.st.mklist(lst), "vertices": k.st.mklist((), "set"), "points": k.st.mklist(), "event_queue": NONE})
            what = f"{self.region}: a list of edges {', '.join(pattern)}"
            for s, x in exc:
                E.add("C21", False, "no exception", self.w, what, x)
            for st, v in out:
                E.n += 1
                want = [e for e, x in zip(lst, pattern) if x == "in"]
                now = k.segs(st, v) if isinstance(v, Ref) else None
                E.add("C21 C10", now == want, "keeps the others in order", self.w, f"{what}: exactly those with a part inside are kept, in order", now)


def atom_of(r):
    return next((a for a in r.n.atoms() if r == R.atom(a)), None) if r is not None else None
