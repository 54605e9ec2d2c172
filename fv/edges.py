"""Half-edges, the clean-up of zero-length edges, and closing the diagram along the bounding region (C09, C10, C11, C20, C21)."""
import math

from .lib import *
from .model import ClassInfo


class Kit:
    """a state with an interpreter and helpers"""

    def __init__(self, prog, client=None):
        self.p = prog
        self.cl = client or Client()
        self.I = Interp(prog, self.cl)
        self.I.UNROLL = self.I.UNROLL_WHILE = 40
        self.st = State()

    def mk(self, cls, *args, **kw):
        s2, v = make(self.I, self.st, cls, *args, **kw)
        self.st = s2
        return v

    def polygon(self, corners="pqr"):
        self.st, v = make_region(self.I, self.st, corners)
        return v

    def get(self, ref, name, st=None):
        return attr(self.I, st or self.st, ref, name)

    def put(self, ref, name, v):
        out = self.I.setattr(self.st, ref, name, v, None)
        if len(out) != 1:
            raise Unsupported(f"setting {name} has {len(out)} outcomes")
        self.st = out[0]

    def do(self, obj, name, *args):
        """run a method that has one outcome"""
        f = self.method(obj, name)
        out, exc = self.I.run(self.st, Bound(Fn(f), obj), list(args))
        if exc or len(out) != 1:
            raise Unsupported(f"{name} has {len(out)} outcomes and {exc}")
        self.st = out[0][0]
        return out[0][1]

    def method(self, obj, name):
        f = self.st.obj(obj).cls.method(name)
        if f is None:
            raise Unsupported(f"anchor {self.st.obj(obj).cls.name}.{name} not found")
        return f

    def push(self, lst, *vs):
        self.st.set(lst, "segs", self.st.get(lst, "segs") + vs)

    def segs(self, st, lst):
        if isinstance(lst, Tup):
            return list(lst.items)
        return list(st.get(lst, "segs")) if isinstance(lst, Ref) and st.obj(lst).kind in ("list", "set") else [lst]

    def vertex(self, n):
        return self.mk("Vertex", num(n + ".x"), num(n + ".y"))

    def pair(self, n, p1, p2, o1, o2):
        """two half-edges o1 -> o2 (cell p1) and back (cell p2), listed at their vertices"""
        a = self.mk("HalfEdge", p1, origin=o1)
        b = self.mk("HalfEdge", p2, origin=o2, twin=a)
        for h, o in ((a, o1), (b, o2)):
            if isinstance(o, Ref) and self.st.obj(o).cls is self.p.cls("Vertex"):
                self.push(self.get(o, "connected_edges"), h)
        return a, b


class Edges:
    def __init__(self, prog, tier):
        self.p, self.tier = prog, tier
        self.obs, self.interps, self.n = [], [], 0

    def add(self, props, ok, rule, where, what, detail=""):
        self.obs.append((props.split(), bool(ok), rule, where, what, detail))

    def kit(self, client=None):
        k = Kit(self.p, client)
        self.interps.append(k.I)
        return k

    def wh(self, cls, name):
        f = self.p.cls(cls).method(name)
        if f is None:
            raise Unsupported(f"anchor {cls}.{name} not found")
        return where_fn(f)

    # ------------------------------------------------------------ half-edges
    def half_edges(self):
        w = where_fn(self.p.cls("HalfEdge").method("__init__"))
        for twin in (True, False):
            for org in ("vertex", "breakpoint", "none"):
                k = self.kit()
                p, q = k.mk("Point", num("p.x"), num("p.y")), k.mk("Point", num("q.x"), num("q.y"))
                v = k.vertex("v")
                o = v if org == "vertex" else k.mk("Breakpoint", Tup((p, q))) if org == "breakpoint" else NONE
                t = k.mk("HalfEdge", q, origin=k.vertex("w")) if twin else NONE
                e = k.mk("HalfEdge", p, twin=t, origin=o)
                self.n += 1
                self.add("C11", k.get(e, "incident_point") == p, "cells of an edge", w, "a half-edge borders the cell it was made for", k.get(e, "incident_point"))
                self.add("C09", k.get(e, "origin") == o, "ends", w, "a half-edge begins in the origin it was made with", k.get(e, "origin"))
                self.add("C09", k.get(e, "next") == NONE and k.get(e, "prev") == NONE, "links", w, "a new half-edge is not linked", "")
                if twin:
                    self.add("C09", k.get(e, "twin") == t and k.get(t, "twin") == e, "twins", w, "a half-edge made with a twin is its twin's twin", k.get(t, "twin"))
                    self.add("C09", k.get(e, "target") == k.get(t, "origin"), "ends", w, "a half-edge ends where its twin begins", k.get(e, "target"))
                    self.add("C09 C11", k.get(t, "incident_point") == q, "cells of an edge", w, "the twin keeps its cell", "")
                else:
                    self.add("C09", k.get(e, "twin") == NONE and k.get(e, "target") == NONE, "twins", w, "a half-edge made without a twin has none", k.get(e, "twin"))
        # assigning a twin
        k = self.kit()
        p = k.mk("Point", num("p.x"), num("p.y"))
        a, b = k.mk("HalfEdge", p), k.mk("HalfEdge", p)
        k.put(a, "twin", b)
        self.add("C09", k.get(a, "twin") == b and k.get(b, "twin") == a, "twins", w, "assigning a twin makes the two twins of each other", k.get(b, "twin"))
        # linking
        w = self.wh("HalfEdge", "set_next")
        k = self.kit()
        p = k.mk("Point", num("p.x"), num("p.y"))
        a, b, c = (k.mk("HalfEdge", p) for _ in range(3))
        k.do(a, "set_next", b)
        k.do(b, "set_next", c)
        ok = k.get(a, "next") == b and k.get(b, "prev") == a and k.get(b, "next") == c and k.get(c, "prev") == b and k.get(a, "prev") == NONE and k.get(c, "next") == NONE
        self.add("C09", ok, "links", w, "next and previous are mutually inverse", "")
        k.do(a, "set_next", NONE)
        self.add("C09", k.get(a, "next") == NONE and k.get(b, "next") == c, "links", w, "linking to nothing clears next only", k.get(a, "next"))
        self.deletion()
        self.walk()

    def walk(self):
        """what a site lists as its borders and vertices: its edges from the first one on, all round or as far as they are known"""
        P = self.p.cls("Point")
        fb, fv = P.method("borders"), P.method("vertices")
        if fb is None or fv is None:
            raise Unsupported("anchor Point.borders or Point.vertices not found")
        for n in range(5):
            for shape in ("closed", "open", "half traced") if n else ("empty",):
                for first in range(n or 1):
                    k = self.kit()
                    p, q = k.mk("Point", num("p.x"), num("p.y")), k.mk("Point", num("q.x"), num("q.y"))
                    o = [k.vertex("v%d" % i) for i in range(n)]
                    if shape == "half traced":
                        o[0] = k.mk("Breakpoint", Tup((p, q)))
                    es = [k.mk("HalfEdge", p, origin=z) for z in o]
                    for i in range(n):
                        if i + 1 < n or shape == "closed":
                            k.do(es[i], "set_next", es[(i + 1) % n])
                    if n:
                        k.put(p, "first_edge", es[first])
                    turn = lambda xs: xs[first:] + (xs[:first] if shape == "closed" else [])
                    what = f"a cell of {n} edges ({shape})" if n else "a site without edges"
                    for f, want in ((fb, turn(es)), (fv, [z for z in turn(o) if k.st.obj(z).cls is self.p.cls("Vertex")])):
                        out, exc = k.I.run(k.st, Bound(Fn(f), p), [])
                        w = where_fn(f)
                        self.add("C11", not exc and out, "borders", w, what + ": they are listed without an error", exc)
                        for st, v in out:
                            self.n += 1
                            got = k.segs(st, v) if v != NONE else []
                            self.add("C11", got == want, "borders", w, what + ": each is listed once, from the first one on", (got, want))

    def deletion(self):
        f = self.p.cls("HalfEdge").method("delete")
        w = self.wh("HalfEdge", "delete")
        for prev in (True, False):
            for nxt in (True, False):
                for org in ("first", "middle", "last", "breakpoint", "merged", "merged back"):
                    for first in ("this", "other"):
                        k = self.kit()
                        p, q = k.mk("Point", num("p.x"), num("p.y")), k.mk("Point", num("q.x"), num("q.y"))
                        merged = org.startswith("merged")       # both ends are one vertex, as when an edge of no length is cleaned up
                        v = k.vertex("v")
                        u = v if merged else k.vertex("u")
                        o = k.mk("Breakpoint", Tup((p, q))) if org == "breakpoint" else v
                        x, y = k.mk("HalfEdge", p, origin=v), k.mk("HalfEdge", q, origin=v)
                        e = k.mk("HalfEdge", p, origin=o)
                        t = k.mk("HalfEdge", q, origin=u, twin=e)
                        if not merged:
                            k.push(k.get(u, "connected_edges"), t)
                        con = {"first": (e, x, y), "middle": (x, e, y), "last": (x, y, e), "merged": (x, e, t, y), "merged back": (t, x, e, y)}.get(org, (x, y))
                        k.push(k.get(v, "connected_edges"), *con)
                        a = k.mk("HalfEdge", p)
                        b = k.mk("HalfEdge", p)
                        if prev:
                            k.do(a, "set_next", e)
                        if nxt:
                            k.do(e, "set_next", b)
                        k.put(p, "first_edge", e if first == "this" else a)
                        k.put(q, "first_edge", t)
                        out, exc = k.I.run(k.st, Bound(Fn(f), e), [])
                        what = f"deleting a half-edge {'with' if prev else 'without'} previous and {'with' if nxt else 'without'} next"
                        self.add("C09 C10 C11", not exc and out, "no exception", w, what, exc)
                        for s, _ in out:
                            self.n += 1
                            g = lambda r, n: k.get(r, n, s)
                            if prev:
                                self.add("C09", g(a, "next") == (b if nxt else NONE), "links", w, what + ": the previous one continues with the next", g(a, "next"))
                            if prev and nxt:
                                self.add("C09", g(b, "prev") == a, "links", w, what + ": the next one follows the previous", g(b, "prev"))
                            now = k.segs(s, g(v, "connected_edges"))
                            self.add("C10", now == [z for z in con if z != e], "connected edges", w, what + ": its vertex no longer lists it and keeps the others", now)
                            self.add("C10", merged or k.segs(s, g(u, "connected_edges")) == [t], "connected edges", w, what + ": the other end still lists the twin", "")
                            fe = g(p, "first_edge")
                            if first == "other":
                                self.add("C11", fe == a, "first edge", w, what + ": another first edge is kept", fe)
                            elif nxt:
                                self.add("C11", fe == b, "first edge", w, what + ": the first edge moves on to the next", fe)
                            else:
                                self.add("C11", fe != e, "first edge", w, what + ": a deleted half-edge is no first edge", fe)
                            self.add("C11", g(q, "first_edge") == t, "first edge", w, what + ": the twin's cell keeps its first edge", "")


# ---------------------------------------------------------------- planar scenes for the clean-up
def ring(inner, spokes, outer):
    """(vertex positions, edges) of inner vertices joined to an outer cycle"""
    return {**inner, **outer}, spokes


GRAPHS = {
    "single": ({"v": (0, -1), "w": (0, 1)}, ["vw"], ["vw"]),
    # two inner vertices joined by one edge that may have no length
    "one": ({"v": (0, -1), "w": (0, 1), "a": (-3, -2), "b": (2, -3), "c": (3, 2), "d": (-2, 3)},
            ["vw", "va", "vb", "wc", "wd", "ab", "bc", "cd", "da"], ["vw"]),
    "chain": ({"u": (-2, 0), "v": (0, .3), "w": (2, 0), "a": (-5, -3), "b": (.5, -4), "c": (5, -3), "d": (4.5, 3), "e": (-4, 3.5)},
              ["uv", "vw", "ua", "ue", "vb", "wc", "wd", "ab", "bc", "cd", "de", "ea"], ["uv", "vw"]),
    "star": ({"o": (0, 0), "u": (-2, -1), "v": (2, -1.2), "w": (.3, 2), "a": (-5, -1), "b": (-3, -5), "c": (3, -5), "d": (5, -.5), "e": (3, 5), "f": (-2, 5.5)},
             ["ou", "ov", "ow", "ua", "ub", "vc", "vd", "we", "wf", "ab", "bc", "cd", "de", "ef", "fa"], ["ou", "ov", "ow"]),
    # an edge to the boundary and a boundary edge beside it
    "boundary": ({"v": (0, -1), "w": (0, 1), "a": (-3, -2), "b": (2, -3), "c": (3, 2), "d": (-2, 3)},
                 ["vw", "va", "vb", "wc", "wd", "ab", "bc", "cd", "da"], ["va", "da"]),
}


def scene(k, name, flip, first):
    """half-edges of a planar graph, linked round its faces; returns a description"""
    pos, edges, cand = GRAPHS[name]
    nb = {v: sorted((e[1] if e[0] == v else e[0] for e in edges if v in e), key=lambda w: math.atan2(pos[w][1] - pos[v][1], pos[w][0] - pos[v][0])) for v in pos}
    V = {v: k.vertex(v) for v in pos}
    H = {}
    for e in edges:
        H[e[0], e[1]] = k.mk("HalfEdge", NONE, origin=V[e[0]])
        H[e[1], e[0]] = k.mk("HalfEdge", NONE, origin=V[e[1]], twin=H[e[0], e[1]])
    nxt = {}
    for (a, b) in H:
        r = nb[b]
        nxt[a, b] = (b, r[(r.index(a) - 1) % len(r)])
    faces, seen = [], set()
    for h in H:
        if h in seen:
            continue
        f, x = [], h
        while x not in seen:
            seen.add(x)
            f.append(x)
            x = nxt[x]
        area = sum(pos[a][0] * pos[b][1] - pos[b][0] * pos[a][1] for a, b in f)
        faces.append((area > 0, f))
    sites = []
    for i, (inner, f) in enumerate(faces):
        if not inner:
            continue
        s = k.mk("Point", num(f"s{i}.x"), num(f"s{i}.y"))
        for j, h in enumerate(f):
            k.put(H[h], "incident_point", s)
            k.do(H[h], "set_next", H[f[(j + 1) % len(f)]])
        c = [h for h in f if h[0] + h[1] in cand or h[1] + h[0] in cand]
        k.put(s, "first_edge", H[(c if first and c else f)[0]])
        sites.append((s, f))
    for v in pos:
        k.push(k.get(V[v], "connected_edges"), *[H[v, w] for w in nb[v]])
    lst = [H[(e[1], e[0]) if flip and i % 2 else (e[0], e[1])] for i, e in enumerate(edges)]
    # lengths: edges that are no candidates have the direction they are drawn with
    for e in edges:
        if e in cand:
            continue
        dx, dy = pos[e[1]][0] - pos[e[0]][0], pos[e[1]][1] - pos[e[0]][1]
        ax = "x" if dx else "y"
        d = dx or dy
        k.st.facts.assume(R.atom(f"{e[1]}.{ax}") - R.atom(f"{e[0]}.{ax}"), frozenset((1 if d > 0 else -1,)))
    return dict(V=V, H=H, edges=edges, lst=lst, faces=faces, sites=sites, cand=cand)


class Cleanup:
    def __init__(self, E):
        self.E, self.p = E, E.p

    def run(self):
        E = self.E
        f = self.p.cls("Algorithm").method("clean_up_zero_length_edges")
        if f is None:
            raise Unsupported("anchor Algorithm.clean_up_zero_length_edges not found")
        w = where_fn(f)
        start = len(E.obs)
        names = ["single", "one", "chain", "boundary"] + (["star"] if E.tier == "thorough" else [])
        for name in names:
            if any(not o[1] for o in E.obs[start:]):
                break       # the larger scenes would only repeat it
            for flip in (False, True):
                for first in (True, False):
                    for order in ("given", "reversed"):
                        k = E.kit()
                        sc = scene(k, name, flip, first)
                        V = k.mk("Algorithm", Opq("region", "region"))
                        lst = sc["lst"] if order == "given" else sc["lst"][::-1]
                        k.put(V, self.p.field_of("Algorithm", "edges"), k.st.mklist(lst))
                        k.put(V, self.p.field_of("Algorithm", "vertices"), k.st.mklist(sc["V"].values(), E.vertex_kind()))
                        k.put(V, "sites", k.st.mklist([s for s, _ in sc["sites"]]))
                        out, exc = k.I.run(k.st, Bound(Fn(f), V), [])
                        what = f"{len(sc['cand'])} candidate{'s' * (len(sc['cand']) > 1)} ({name})"
                        for s, e in exc:
                            E.add("C20 C10", False, "no exception", w, f"cleaning up, {what}", e)
                        E.add("C20", out, "no exception", w, f"cleaning up ends, {what}", "")
                        for s, _ in out:
                            E.n += 1
                            self.after(k, s, V, sc, lst, w, what)

    def after(self, k, st, V, sc, lst, w, what):
        E = self.E
        g = lambda r, n: k.get(r, n, st)
        H, VV = sc["H"], sc["V"]
        name = {r.oid: f"{a}{b}" for (a, b), r in H.items()}
        nm = lambda r: name.get(r.oid, str(r)) if isinstance(r, Ref) else str(r)
        now = k.segs(st, g(V, "edges"))
        gone, bad = [], []
        for e in sc["edges"]:
            h = [H[e[0], e[1]], H[e[1], e[0]]]
            d = [R.atom(f"{e[1]}.{c}") - R.atom(f"{e[0]}.{c}") for c in "xy"]
            kept = [x for x in now if x in h]
            if len(kept) > 1:
                bad.append(f"{e} is listed twice")
            sg = [st.facts.sign(x) for x in d]
            if kept and all(0 in x for x in sg):
                t = st.facts.copy()
                if t.assume(d[0], frozenset((0,))) and t.assume(d[1], frozenset((0,))):
                    bad.append(f"{e} is kept though its ends may have equal coordinates")
            if not kept:
                gone.append(e)
                if not all(x == frozenset((0,)) for x in sg):
                    bad.append(f"{e} is removed though its ends may differ")
        E.add("C20", not bad, "removes exactly the zero-length edges", w, f"{what}: an edge is removed exactly if its ends have equal coordinates", bad)
        dead = {x for e in gone for x in (H[e[0], e[1]], H[e[1], e[0]])}
        E.add("C20", now == [x for x in lst if x not in dead], "keeps the others in order", w, f"{what}: the other edges are kept, in order", [nm(x) for x in now])
        # classes of merged vertices
        rep = {v: v for v in VV}

        def find(v):
            while rep[v] != v:
                v = rep[v]
            return v
        for e in gone:
            rep[find(e[0])] = find(e[1])
        vs = k.segs(st, g(V, "vertices"))
        back = {r: v for v, r in VV.items()}
        cls = {}
        for r in vs:
            cls.setdefault(find(back[r]) if r in back else None, []).append(r)
        ok = None not in cls and all(len(x) == 1 for x in cls.values()) and len(cls) == len({find(v) for v in VV})
        E.add("C20", ok, "merges the vertices", w, f"{what}: of each group of vertices joined by removed edges one remains, and every other vertex", [back.get(r) for r in vs])
        if not ok:
            return
        # connected edges
        bad, bad9 = [], []
        live = [r for r in H.values() if r not in dead]
        for r in vs:
            con = k.segs(st, g(r, "connected_edges"))
            want = [h for h in live if g(h, "origin") == r]
            if sorted(map(str, con)) != sorted(map(str, want)):
                bad.append(f"{back[r]} lists {[nm(x) for x in con]}, but {[nm(x) for x in want]} begin there")
        for (a, b), h in H.items():
            if h in dead:
                continue
            o = g(h, "origin")
            if o not in vs or find(back[o]) != find(a):
                bad9.append(f"{a}{b} begins in {back.get(o, o)}")
            if g(h, "twin") != H[b, a]:
                bad9.append(f"{a}{b} lost its twin")
        E.add("C20 C10", not bad, "connected edges", w, f"{what}: the remaining vertex lists exactly the edges that begin there", bad)
        E.add("C20 C09", not bad9, "ends", w, f"{what}: every remaining edge begins in the vertex that took over", bad9)
        # links round the cells
        bad, bad11 = [], []
        for s, f in sc["sites"]:
            ring_ = [H[h] for h in f if H[h] not in dead]
            for i, h in enumerate(ring_):
                n = ring_[(i + 1) % len(ring_)]
                if g(h, "next") != n or g(n, "prev") != h:
                    bad.append(f"{nm(h)} is followed by {nm(g(h, 'next'))}, and {nm(n)} preceded by {nm(g(n, 'prev'))}")
                if g(h, "incident_point") != s:
                    bad11.append(f"{nm(h)} changed its cell")
            fe = g(s, "first_edge")
            if fe not in ring_:
                bad11.append(f"the first edge of a cell is {nm(fe)}")
        E.add("C20 C09", not bad, "links", w, f"{what}: the remaining edges of each cell follow one another as before", bad)
        E.add("C20 C11", not bad11, "first edge", w, f"{what}: each site has an edge of its own cell as first edge", bad11)


class PolyClient(Client):
    """keeps the given order where corners or vertices are sorted by angle, and records the keys"""

    def __init__(self):
        self.sorts = []
        self.sorted_calls = 0

    def on_ext(self, I, st, path, args, kwargs, node):
        if path == "builtins.sorted":
            self.sorted_calls += 1
            out = []
            for x, segs, _ in I.iter_segs(st, args[0], node):
                key = kwargs.get("key")
                cur = [x]
                if key is not None and key != NONE:
                    for v in I.distinct_segs(segs):
                        nxt = []
                        for y in cur:
                            for z, kv in I.call(y, key, [v], {}, node):
                                self.sorts.append((v, kv, kwargs.get("reverse", K(False)), z, I.where(node)))
                                nxt.append(z)
                        cur = nxt
                out += [(y, y.mklist(segs)) for y in cur]
            return out
        if path in ("builtins.min", "builtins.max") and len(args) == 1 and not kwargs and self.plain(I, st, args[0], node):
            return [(st, Num(R.atom(fresh("ext")), "dec"))]
        return None

    fork_minmax = True

    @staticmethod
    def plain(I, st, seq, node):
        """numbers, which become a symbol; anything else is split into cases"""
        return all(tonum(g) is not None for _, segs, _ in I.iter_segs(st.copy(), seq, node) for g in segs)

    def intercept(self, I, st, fn, args, kwargs, node):
        from .interp import Meth
        if isinstance(fn, Meth) and fn.name == "sort" and isinstance(fn.recv, Ref) and st.obj(fn.recv).kind == "list":
            r = self.on_ext(I, st, "builtins.sorted", [fn.recv], kwargs, node)
            for x, v in r:
                x.set(fn.recv, "segs", x.get(v, "segs"))
            return [(x, NONE) for x, v in r]
        return None


def _vertex_kind(self):
    """list or set: what closing the polygon returns as the vertices"""
    if not hasattr(self, "_vk"):
        self._vk = "list"
        k = Kit(self.p, PolyClient())
        f = self.p.cls("Polygon").method("finish_polygon")
        if f is None:
            raise Unsupported("anchor Polygon.finish_polygon not found")
        b = k.polygon()
        s = k.mk("Point", num("s.x"), num("s.y"))
        out, exc = k.I.run(k.st, Bound(Fn(f), b), [k.st.mklist(), k.st.mklist((), "set"), k.st.mklist([s])])
        for x, v in out:
            if isinstance(v, Tup) and len(v.items) == 2 and isinstance(v.items[1], Ref):
                self._vk = x.obj(v.items[1]).kind
    return self._vk


Edges.vertex_kind = _vertex_kind


PARTS = ("half_edges", "cleanup", "closing", "clipping")


def part(E, name):
    from . import region
    if name == "cleanup":
        Cleanup(E).run()
    elif name == "half_edges":
        E.half_edges()
    elif name == "closing":
        for c in ("Polygon", "BoundingCircle"):
            region.Closing(E, c).run()
    elif name == "clipping":
        for c in ("Polygon", "BoundingCircle"):
            region.Clipping(E, c).run()


def run(prog, rep, pid, parts=PARTS):
    E = Edges(prog, rep.tier)
    try:
        rep.each(*[lambda x=x: part(E, x) for x in parts])
    finally:
        for props, ok, rule, where, what, detail in E.obs:
            if pid in props:
                rep.ob(ok, rule, where, what, detail)
    for I in E.interps:
        rep.interp(I, 1)
    rep.count("edge_scenes", E.n)
    return E
