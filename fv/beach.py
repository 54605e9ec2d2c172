"""One arbitrary step of the sweep, interpreted over a symbolic beach line (C02, C09, C10, C11, C12, C13).

The beach line is a status tree of a given shape whose arcs belong to symbolic sites; breakpoint positions, circles and
orientations are uninterpreted (C14 decides those kernels), so every comparison splits the analysis.  The handlers are
interpreted from such a state and the resulting heap is inspected.  C12 and C13 decide the tree operations themselves for
trees of any size; the shapes here are the neighbourhoods of the arc a handler works on.
"""
from .lib import *
from .model import ClassInfo


def shapes(n):
    """full binary AVL trees with n leaves: None for a leaf, (left, right)"""
    if n == 1:
        return [(1, None)]
    out = []
    for i in range(1, n):
        for hl, l in shapes(i):
            for hr, r in shapes(n - i):
                if abs(hl - hr) <= 1:
                    out.append((1 + max(hl, hr), (l, r)))
    return out


class BeachClient(Client):
    def __init__(self, prog):
        self.p = prog
        self.kern = {}
        self.cmps = {}
        for c, m in (("Breakpoint", "get_intersection"), ("CircleEvent", "create_circle"), ("Algebra", "check_clockwise")):
            f = prog.cls(c).method(m)
            if f is None:
                raise Unsupported(f"anchor {c}.{m} not found")
            self.kern[id(f.node)] = m
        f = prog.cls("Subject").method("notify_observers")
        if f is not None:
            self.kern[id(f.node)] = "notify"

    def on_compare(self, I, st, op, a, b, node):
        bad = [v for v in (a, b) if isinstance(v, Num) and (v.kind in ("float", "np") or v.inexact)]
        w = I.where(node)
        self.cmps[w] = self.cmps.get(w) or (f"{a} and {b}" if bad else "")

    def intercept(self, I, st, fv, args, kwargs, node):
        f = fv.f.f if isinstance(fv, Bound) and isinstance(fv.f, Fn) else (fv.f if isinstance(fv, Fn) else None)
        k = f and self.kern.get(id(f.node))
        if not k:
            return None
        a = ([fv.self_] if isinstance(fv, Bound) else []) + list(args)
        names = [x.arg for x in f.node.args.args]
        kw = dict(kwargs)
        for n in names[len(a):]:
            if n in kw:
                a.append(kw.pop(n))
            else:
                break
        return getattr(self, "k_" + k)(I, st, a, kw, node)

    def k_notify(self, I, st, a, kw, node):
        m = a[1] if len(a) > 1 else kw.get("message")
        n = m.v.name if isinstance(m, K) and hasattr(m.v, "name") else str(m)
        if n != "DEBUG":
            st.ghost["sent"] = st.ghost.get("sent", ()) + (n,)
        return [(st, a[0])]

    def k_get_intersection(self, I, st, a, kw, node):
        pair = attr(I, st, a[0], "breakpoint")
        l = tonum(a[1]) if len(a) > 1 else None
        if not isinstance(pair, Tup) or l is None:
            raise Unsupported(f"breakpoint position at {I.where(node)} with sites {pair} and line {a[1:]}")
        st.ghost["lines"] = st.ghost.get("lines", ()) + ((l.r, I.where(node)),)
        return I.call(st, Cls(self.p.cls("Coordinate")), [num(self.bp(st, pair, l.r) + ".x"), num(self.bp(st, pair, l.r) + ".y")], {}, node)

    @staticmethod
    def bp(st, pair, l):
        a, b = (x.oid if isinstance(x, Ref) else repr(x) for x in pair.items)
        return f"bp.{a}.{b}.{hash(l.key()) & 0xffffff:x}"

    def k_create_circle(self, I, st, a, kw, node):
        if len(a) != 3 or not all(isinstance(x, Ref) for x in a):
            raise Unsupported(f"create_circle called with {a} at {I.where(node)}")
        key = tuple(x.oid for x in a)
        memo = st.ghost.get("circle", {})
        if key not in memo:
            if len(set(key)) < 3:
                st.ghost["circle"] = {**memo, key: False}
                return [(st, K(False))]
            n = "circle." + ".".join(key)
            s2 = st.copy()
            s2.ghost["circle"] = {**memo, key: False}
            st.ghost["circle"] = {**memo, key: n}
            memo = st.ghost["circle"]
            return [(s2, K(False)), (st, Tup((num(n + ".x"), num(n + ".y"), num(n + ".r"))))]
        n = memo[key]
        return [(st, K(False) if n is False else Tup((num(n + ".x"), num(n + ".y"), num(n + ".r"))))]

    def k_check_clockwise(self, I, st, a, kw, node):
        if len(a) != 4 or not all(isinstance(x, Ref) for x in a):
            raise Unsupported(f"check_clockwise called with {a} at {I.where(node)}")
        key = tuple(x.oid for x in a[:3])
        pos = tuple(r_of(attr(I, st, a[3], n)) for n in ("xd", "yd"))
        c = self.clock(st, key, pos)
        if c is not None:
            return [(st, K(c))]
        s2 = st.copy()
        old = st.ghost.get("clock", ())
        s2.ghost["clock"] = old + ((key, pos, False),)
        st.ghost["clock"] = old + ((key, pos, True),)
        return [(st, K(True)), (s2, K(False))]

    @staticmethod
    def clock(st, key, pos):
        for k, p, c in st.ghost.get("clock", ()):
            if k == key and all(st.facts.norm(x - y).is_zero() for x, y in zip(p, pos)):
                return c
        return None


class Scene:
    """a beach line with its edges and pending events"""

    def __init__(self, prog, pattern, shape, events, first=True, links=True):
        self.p = prog
        self.cl = BeachClient(prog)
        self.I = Interp(prog, self.cl)
        self.st = State()
        self.pattern = pattern
        mk = self.mk
        self.region = Opq("region", "region")
        self.V = mk("Algorithm", self.region)
        self.st = self.one(Bound(Fn(prog.cls("Algorithm").method("initialize")), self.V), [self.st.mklist()])[0]
        self.sites = {}
        for c in pattern:
            if c not in self.sites:
                self.sites[c] = mk("Point", num(f"{c}.x"), num(f"{c}.y"))
        self.arcs = [mk("Arc", self.sites[c]) for c in pattern]
        self.leaves = [mk("LeafNode", a) for a in self.arcs]
        self.bps, self.inner, self.edges, self.far = [], [], [], []
        self.queue = self.get(self.V, "event_queue")
        for i in range(len(pattern) - 1):
            a, b = self.sites[pattern[i]], self.sites[pattern[i + 1]]
            bp = mk("Breakpoint", Tup((a, b)))
            self.bps.append(bp)
            self.inner.append(mk("InternalNode", bp))
            w = mk("Vertex", num(f"w{i}.x"), num(f"w{i}.y"))
            twin = mk("HalfEdge", a, origin=w)
            edge = mk("HalfEdge", b, origin=bp, twin=twin)
            self.put(bp, "edge", edge)
            self.lst(self.get(w, "connected_edges"), twin)
            if links:
                # the far end is linked already
                nx = mk("HalfEdge", b, origin=w, twin=mk("HalfEdge", a, origin=bp))
                pv = mk("HalfEdge", a, origin=bp, twin=mk("HalfEdge", b, origin=w))
                for x, y in ((edge, nx), (pv, twin)):
                    self.st = self.one(Bound(Fn(prog.cls("HalfEdge").method("set_next")), x), [y])[0]
            self.edges.append(edge)
            self.far.append(twin)
            self.lst(self.get(self.V, "edges"), edge if i % 2 else twin)
        if first:
            for i in range(len(pattern)):
                s = self.arcs[i]
                e = self.far[i] if i < len(self.far) else self.edges[i - 1] if i else None
                if e is not None and self.get(self.get(s, "origin"), "first_edge") == NONE:
                    self.put(self.get(s, "origin"), "first_edge", e)
        self.events = {}
        for i, kind in sorted(events.items()):
            l, m, r = i - 1, i, i + 1
            if not (0 <= l and r < len(pattern)):
                continue
            e = mk("CircleEvent", center=mk("Coordinate", num(f"e{i}.x"), num(f"e{i}.y")), radius=num(f"e{i}.r"),
                   arc_node=self.leaves[m], point_triple=Tup(tuple(self.sites[pattern[j]] for j in (l, m, r))),
                   arc_triple=Tup(tuple(self.arcs[j] for j in (l, m, r))))
            self.put(self.arcs[i], "circle_event", e)
            if kind == "invalid":
                self.put(e, "is_valid", K(False))
            self.events[i] = e
            if kind != "now":
                self.enqueue(e)
        if pattern:
            root = self.tree(shape, 0)[0]
            self.put(self.V, "status_tree", root)
            self.get(root, "height")
        self.root = self.get(self.V, "status_tree")
        # a site that was split is reported by its original arc, the others by the arc on the beach line
        f = prog.field_of("Algorithm", "arcs")
        old = self.st.get(self.V, f)
        if isinstance(old, Ref) and self.st.obj(old).kind in ("list", "set"):
            named = [self.arcs[pattern.index(c)] if pattern.count(c) == 1 else mk("Arc", self.sites[c]) for c in dict.fromkeys(pattern)]
            self.lst(old, *named)

    # ------------------------------------------------------------ helpers on the current state
    def one(self, fn, args, kw=None):
        out, exc = self.I.run(self.st, fn, args, kw or {})
        if exc or len(out) != 1:
            raise Unsupported(f"setting up the beach line: {fn} has {len(out)} outcomes, {exc}")
        return out[0]

    def mk(self, cls, *args, **kw):
        self.st, v = make(self.I, self.st, cls, *args, **kw)
        return v

    def get(self, ref, name):
        return attr(self.I, self.st, ref, name)

    def put(self, ref, name, v):
        out = self.I.setattr(self.st, ref, name, v, None)
        if len(out) != 1:
            raise Unsupported(f"setting {name} has {len(out)} outcomes")
        self.st = out[0]

    def lst(self, l, *vs):
        self.st.set(l, "segs", self.st.get(l, "segs") + vs)

    def enqueue(self, e):
        self.st.set(self.queue, "segs", self.st.get(self.queue, "segs") + (e,))

    def tree(self, shape, i):
        if shape is None:
            return self.leaves[i], i + 1
        l, j = self.tree(shape[0], i)
        me = self.inner[j - 1]
        r, k = self.tree(shape[1], j)
        self.put(me, "left", l)
        self.put(me, "right", r)
        return me, k


def rd(I, st, ref, name):
    return attr(I, st, ref, name)


def inorder(I, st, v, out, depth=0):
    if not isinstance(v, Ref) or depth > 12:
        if v != NONE:
            out.append(("?", v))
        return
    l, r = rd(I, st, v, "left"), rd(I, st, v, "right")
    if l != NONE:
        inorder(I, st, l, out, depth + 1)
    out.append(("leaf" if l == NONE and r == NONE else "node", v))
    if r != NONE:
        inorder(I, st, r, out, depth + 1)


def is_cls(prog, st, v, name):
    return isinstance(v, Ref) and isinstance(st.obj(v).cls, ClassInfo) and st.obj(v).cls.is_sub(prog.cls(name))


def depth_of(I, st, v):
    if not isinstance(v, Ref):
        return 0, []
    l, r = rd(I, st, v, "left"), rd(I, st, v, "right")
    a, x = depth_of(I, st, l)
    b, y = depth_of(I, st, r)
    bad = x + y
    h = rd(I, st, v, "height")
    if not (isinstance(h, (K, Num)) and st.facts.norm(tonum(h).r - R.const(1 + max(a, b))).is_zero()):
        bad = bad + [f"a node of height {1 + max(a, b)} records {h}"]
    if abs(a - b) > 1:
        bad = bad + [f"the subtrees of a node have heights {a} and {b}"]
    for c in (l, r):
        if isinstance(c, Ref) and rd(I, st, c, "parent") != v:
            bad = bad + ["a child does not point back to its parent"]
    return 1 + max(a, b), bad


class Step:
    """obligations of one interpreted event; add(props, ok, rule, what, detail)"""

    def __init__(self, prog, tier):
        self.p, self.tier = prog, tier
        self.obs = []
        self.paths = 0
        self.interps = []
        self.scenes = 0

    def add(self, props, ok, rule, where, what, detail=""):
        self.obs.append((props.split(), bool(ok), rule, where, what, detail))

    # ------------------------------------------------------------ shared obligations
    def line(self, sc, st, want, where, pos):
        bad = [w for l, w in st.ghost.get("lines", ()) if not st.facts.norm(l - want).is_zero()]
        self.add("C02", not bad, "sweep line", where, f"{pos}: breakpoints are evaluated with the sweep line at the event", bad)

    def beach(self, sc, st, where, want, pos):
        """sequence of sites, breakpoints, links, heights of the final tree: [(leaf, arc, site)] or None"""
        I, p = sc.I, self.p
        root = rd(I, st, sc.V, "status_tree")
        seq = []
        inorder(I, st, root, seq)
        leaves = [v for k, v in seq if k == "leaf"]
        ok = all(k != "?" for k, _ in seq) and all(is_cls(p, st, v, "LeafNode") for v in leaves)
        self.add("C12 C11", ok, "beach line", where, f"{pos}: the leaves of the tree are arcs", seq)
        if not ok:
            return None
        arcs = [rd(I, st, v, "data") for v in leaves]
        got = [rd(I, st, a, "origin") for a in arcs]
        ok = got == want
        self.add("C12 C11", ok, "beach line", where, f"{pos}: the arcs along the beach line are the old ones with the change applied",
                 "sites in order: %s, must be %s" % tuple(" ".join(self.name(sc, x) for x in xs) for xs in (got, want)))
        now = st.copy()
        for x, segs, _ in I.iter_segs(now, rd(I, now, sc.V, "arcs"), None):
            named = [rd(I, x, a, "origin") for a in segs if not isinstance(a, Seg)]
            lost = [self.name(sc, o) for o in got if o not in named]
            self.add("C12", not lost, "arcs are reported", where, f"{pos}: each site with an arc on the beach line has an arc among the reported ones", lost)
        bad = []
        for i, (k, v) in enumerate(seq):
            if k == "node":
                bp = rd(I, st, v, "data")
                pair = rd(I, st, bp, "breakpoint") if is_cls(p, st, bp, "Breakpoint") else None
                l = next((rd(I, st, rd(I, st, x, "data"), "origin") for kk, x in reversed(seq[:i]) if kk == "leaf"), None)
                r = next((rd(I, st, rd(I, st, x, "data"), "origin") for kk, x in seq[i:] if kk == "leaf"), None)
                if not (isinstance(pair, Tup) and list(pair.items) == [l, r]):
                    bad.append(f"a breakpoint between the arcs of {self.name(sc, l)} and {self.name(sc, r)} names "
                               + (" ".join(self.name(sc, x) for x in pair.items) if isinstance(pair, Tup) else str(pair)))
        self.add("C12 C11", not bad, "breakpoints name their arcs", where, f"{pos}: each breakpoint names the arcs on its two sides", bad)
        _, bad = depth_of(I, st, root)
        if isinstance(root, Ref) and rd(I, st, root, "parent") != NONE:
            bad.append("the tree's root has a parent")
        link = [b for b in bad if "point" in b or "parent" in b]
        self.add("C12", not link, "parent links", where, f"{pos}: parent links", link)
        rest = [b for b in bad if b not in link]
        self.add("C13", not rest, "balanced after the event", where, f"{pos}: heights are right and the tree is balanced", rest)
        if not ok:
            return None
        return list(zip(leaves, arcs, got))

    def name(self, sc, v):
        for c, s in sc.sites.items():
            if s == v:
                return c
        return "new" if v == getattr(sc, "site", None) else str(v)

    def bp_edges(self, sc, st, where, pos):
        """every breakpoint of the tree traces a half-edge of its right arc's cell, opposite one of its left arc's"""
        I, p = sc.I, self.p
        seq = []
        inorder(I, st, rd(I, st, sc.V, "status_tree"), seq)
        bad9, bad11 = [], []
        for k, v in seq:
            if k != "node":
                continue
            bp = rd(I, st, v, "data")
            e = rd(I, st, bp, "edge")
            pair = rd(I, st, bp, "breakpoint")
            nm = f"the breakpoint of {' '.join(self.name(sc, x) for x in pair.items)}" if isinstance(pair, Tup) else "a breakpoint"
            if not is_cls(p, st, e, "HalfEdge"):
                bad9.append(f"{nm} traces no half-edge")
                continue
            t = rd(I, st, e, "twin")
            if rd(I, st, e, "origin") != bp:
                bad9.append(f"the half-edge of {nm} does not begin there")
            if not is_cls(p, st, t, "HalfEdge") or rd(I, st, t, "twin") != e or t == e:
                bad9.append(f"the half-edge of {nm} has no proper twin")
                continue
            if rd(I, st, e, "incident_point") != pair.items[1] or rd(I, st, t, "incident_point") != pair.items[0]:
                bad11.append(f"the half-edges of {nm} belong to {self.name(sc, rd(I, st, t, 'incident_point'))} and "
                             f"{self.name(sc, rd(I, st, e, 'incident_point'))}")
        self.add("C09", not bad9, "edges of breakpoints", where, f"{pos}: each breakpoint traces a half-edge that begins in it and has a twin", bad9)
        self.add("C11 C09", not bad11, "cells of an edge", where, f"{pos}: an edge separates the cells of the arcs on its two sides", bad11)

    def pending(self, sc, st, where, row, before, pos):
        """the events of the final beach line: row = [(leaf, arc, site)]"""
        I = sc.I
        now = [e for e in st.get(rd(I, st, sc.V, "event_queue"), "segs")]
        fresh_ = [e for e in now if e not in before]
        self.add("C02", all(is_cls(self.p, st, e, "CircleEvent") for e in fresh_), "scheduling", where,
                 f"{pos}: only circle events are scheduled", fresh_)
        trip = {}
        for i in range(1, len(row) - 1):
            trip[row[i][0].oid] = (i, tuple(x[2] for x in row[i - 1:i + 2]))
        bad, stale = [], []
        dup = [e for i, e in enumerate(now) if e in now[:i]]
        self.add("C02", not dup, "scheduling", where, f"{pos}: no event is scheduled twice", dup)
        for e in now:
            if not is_cls(self.p, st, e, "CircleEvent"):
                continue
            valid = rd(I, st, e, "is_valid")
            if valid == K(False):
                if e in fresh_:
                    bad.append("a new circle event is invalid")
                continue
            tr, leaf = rd(I, st, e, "point_triple"), rd(I, st, e, "arc_pointer")
            t = trip.get(leaf.oid if isinstance(leaf, Ref) else None)
            d = f"the event of {' '.join(self.name(sc, x) for x in tr.items) if isinstance(tr, Tup) else tr}"
            if valid != K(True):
                stale.append(f"{d} has validity {valid}")
            elif t is None:
                stale.append(f"{d} is still valid though its arc is no longer enclosed by two arcs")
            elif not isinstance(tr, Tup) or tuple(tr.items) != t[1]:
                stale.append(f"{d} is still valid though its arc's neighbours are {' '.join(self.name(sc, x) for x in t[1])}")
            elif rd(I, st, row[t[0]][1], "circle_event") != e:
                stale.append(f"{d} is not the one its arc knows of, so it could not be cancelled later")
        self.add("C02", not stale, "false alarms are cancelled", where, f"{pos}: each valid pending event is about three consecutive arcs, and its middle arc can cancel it",
                 stale)
        # all new neighbours are examined, exactly the converging ones scheduled
        memo = st.ghost.get("circle", {})
        need, bad2 = [], []
        for i in range(1, len(row) - 1):
            t = tuple(x[2] for x in row[i - 1:i + 2])
            if (row[i][1].oid,) + tuple(x.oid for x in t) in sc.known:
                continue                      # not new
            key = tuple(x.oid for x in t)
            d = f"{' '.join(self.name(sc, x) for x in t)}"
            mine = [e for e in fresh_ if is_cls(self.p, st, e, "CircleEvent") and rd(I, st, e, "arc_pointer") == row[i][0]]
            if len(set(key)) < 3:
                if mine:
                    bad2.append(f"an event for {d}, which has no circle")
                continue
            c = memo.get(key)
            if c is None:
                need.append(f"{d} was not examined")
                continue
            if c is False:
                if mine:
                    bad2.append(f"an event for {d}, which has no circle")
                continue
            cx, cy, cr = (R.atom(f"{c}.{k}") for k in "xyr")
            ck = sc.cl.clock(st, key, (cx, cy))
            if ck is None:
                need.append(f"the orientation of {d} was not examined")
                continue
            if not ck:
                if mine:
                    bad2.append(f"an event for {d}, which are not clockwise")
                continue
            same = [e for e in fresh_ if e not in mine and is_cls(self.p, st, e, "CircleEvent")
                    and st.facts.norm(r_of(rd(I, st, e, "xd")) - cx).is_zero() and st.facts.norm(r_of(rd(I, st, e, "yd")) - (cy - cr)).is_zero()]
            if not mine and not same:
                bad2.append(f"no event for {d}, which converge")
                continue
            for e in mine:
                q = rd(I, st, e, "center")
                z = [r_of(rd(I, st, q, "xd")) - cx, r_of(rd(I, st, q, "yd")) - cy, r_of(rd(I, st, e, "radius")) - cr]
                if not all(st.facts.norm(x).is_zero() for x in z):
                    bad2.append(f"the event for {d} is not at their circle")
        self.add("C02", not need, "new neighbours are examined", where, f"{pos}: every new triple of neighbouring arcs is examined", need)
        self.add("C02", not bad and not bad2, "scheduling", where, f"{pos}: an event is scheduled exactly for the new triples that converge", bad + bad2)
        gone = [i for i, e in sc.events.items() if e in before and i not in sc.expire and rd(I, st, e, "is_valid") != sc.valid0[i]]
        self.add("C02", not gone, "false alarms are cancelled", where, f"{pos}: no other event is cancelled", gone)

    # ------------------------------------------------------------ site events
    def site_scenes(self):
        out = [("", None, {}, False), ("a", None, {}, False)]
        for n in range(2, 6 if self.tier == "thorough" else 4):
            for _, sh in shapes(n):
                pats = ["abcde"[:n]] + (["aba"] if n == 3 else ["abac", "babc"] if n == 4 else ["abcbd"] if n == 5 else [])
                for pat in pats:
                    for k in ("valid", "invalid") if n == 3 else ("valid",):
                        out.append((pat, sh, {i: k for i in range(n)}, True))
        out.append(("ab", (None, None), {}, False))
        return out

    def sites(self):
        f = self.p.cls("Algorithm").method("handle_site_event")
        if f is None:
            raise Unsupported("anchor Algorithm.handle_site_event not found")
        where = where_fn(f)
        for pat, sh, ev, first in self.site_scenes():
            sc = Scene(self.p, pat, sh, ev, first)
            self.scenes += 1
            sc.site = sc.mk("Point", num("new.x"), num("new.y"))
            e = sc.mk("SiteEvent", sc.site)
            sc.put(sc.V, "sweep_line", num("new.y"))
            st = sc.st
            ok = True
            for c in sc.sites:
                ok = ok and st.facts.assume(R.atom(f"{c}.y") - R.atom("new.y"), frozenset((0, 1)))
            # the breakpoints lie along the beach line in order
            ks = [R.atom(sc.cl.bp(st, Tup((sc.sites[a], sc.sites[b])), R.atom("new.y")) + ".x") for a, b in zip(pat, pat[1:])]
            for a, b in zip(ks, ks[1:]):
                st.facts.assume(b - a, frozenset((0, 1)))
            before = tuple(st.get(sc.queue, "segs"))
            edges0 = st.get(rd(sc.I, st, sc.V, "edges"), "segs")
            sc.first0 = {c: rd(sc.I, st, s, "first_edge") for c, s in sc.sites.items()}
            sc.valid0 = {i: rd(sc.I, st, x, "is_valid") for i, x in sc.events.items()}
            sc.known = {(sc.arcs[i].oid,) + tuple(sc.sites[c].oid for c in pat[i - 1:i + 2]) for i in range(1, len(pat) - 1)}
            sc.links0 = self.snap(sc, st)
            out, exc = sc.I.run(st, Bound(Fn(f), sc.V), [e], {})
            pos = "site event" + (f" into a beach line of {len(pat)}" if pat else " into an empty beach line")
            for s, x in exc:
                self.add("C02 C09 C10 C11 C12 C13", False, "no exception", where, pos, x)
            self.interps.append((sc.I, len(out)))
            for s, v in out:
                self.paths += 1
                self.after_site(sc, s, where, pos, before, edges0)

    def snap(self, sc, st):
        """links of all half-edges"""
        out = {}
        for o, ob in list(st.heap.items()):
            if isinstance(ob.cls, ClassInfo) and ob.cls.is_sub(self.p.cls("HalfEdge")):
                r = Ref(o)
                out[o] = tuple(rd(sc.I, st, r, n) for n in ("twin", "next", "prev", "incident_point", "origin"))
        return out

    def after_site(self, sc, st, where, pos, before, edges0):
        self.add("C03", not st.ghost.get("sent"), "each handled event is reported once", where, f"{pos}: handling an event sends debugging messages only",
                 st.ghost.get("sent"))
        I = sc.I
        pat = sc.pattern
        y, x = R.atom("new.y"), R.atom("new.x")
        if not pat:
            sc.expire = ()
            self.beach(sc, st, where, [sc.site], pos)
            e1 = st.get(rd(I, st, sc.V, "edges"), "segs")
            self.add("C09", e1 == edges0, "one edge pair", where, f"{pos}: the first site has no edge", e1)
            return
        # the arc above the new site: the one whose leaf is gone
        seq = []
        inorder(I, st, rd(I, st, sc.V, "status_tree"), seq)
        left = [v for k, v in seq if k == "leaf"]
        gone = [i for i, l in enumerate(sc.leaves) if l not in left]
        self.add("C12", len(gone) == 1, "beach line", where, f"{pos}: exactly one arc is split", f"{len(gone)} arcs were removed")
        if len(gone) != 1:
            return
        i = gone[0]
        c = pat[i]
        # ties in y come in order of x, so an arc of the same height is to the left
        dy, dx = R.atom(f"{c}.y") - y, R.atom(f"{c}.x") - x
        ys = st.facts.sign(dy)
        two = False
        if ys == frozenset((0,)):
            if not st.facts.assume(dx, frozenset((-1,))):
                return
            if i < len(pat) - 1:
                return                     # an arc of the same height is the last one as long as all sites have that height
            two = True
        elif 0 in ys:
            # undecided: the right breakpoint exists only if the arc is higher
            if st.facts.sign(dx) == frozenset((-1,)):
                pass
            if not st.facts.assume(dy, frozenset((1,))):
                return
        pos += f", arc {i + 1} of {len(pat)}"
        l = I.c
        for j, want in ((i - 1, (0, 1)), (i, (-1, 0))):
            if 0 <= j < len(sc.bps):
                pair = Tup((sc.sites[pat[j]], sc.sites[pat[j + 1]]))
                k = R.atom(l.bp(st, pair, y) + ".x")
                ok = st.facts.sign(x - k) <= frozenset(want)
                self.add("C12 C11", ok, "the arc above the site is split", where, f"{pos}: the arc split lies above the new site",
                         f"new.x may lie on the other side of the breakpoint of {pat[j]} {pat[j + 1]}")
        self.line(sc, st, y, where, pos)
        s = [sc.sites[k] for k in pat]
        want = s[:i] + ([s[i], sc.site] if two else [s[i], sc.site, s[i]]) + s[i + 1:]
        sc.expire = (i,)
        row = self.beach(sc, st, where, want, pos)
        if i in sc.events:
            self.add("C02", rd(I, st, sc.events[i], "is_valid") == K(False), "false alarms are cancelled", where,
                     f"{pos}: the circle event of the split arc is cancelled", rd(I, st, sc.events[i], "is_valid"))
        if row is not None:
            if not two:
                self.pending(sc, st, where, row, before, pos)
            self.bp_edges(sc, st, where, pos)
        # one edge pair
        e1 = st.get(rd(I, st, sc.V, "edges"), "segs")
        add = e1[len(edges0):] if e1[:len(edges0)] == edges0 else None
        ok = add is not None and len(add) == 1 and is_cls(self.p, st, add[0], "HalfEdge")
        self.add("C09", ok, "one edge pair", where, f"{pos}: one half of one new edge is added to the edges", e1)
        if ok:
            e = add[0]
            t = rd(I, st, e, "twin")
            pair = [e, t]
            inc = [rd(I, st, h, "incident_point") if isinstance(h, Ref) else None for h in pair]
            self.add("C11", set(map(str, inc)) == {str(s[i]), str(sc.site)}, "cells of an edge", where,
                     f"{pos}: the new edge separates the cells of the two sites", [self.name(sc, z) for z in inc])
            ok9 = isinstance(t, Ref) and rd(I, st, t, "twin") == e and t != e
            ends = [rd(I, st, h, "origin") for h in pair if isinstance(h, Ref)]
            ok9 = ok9 and len(set(map(str, ends))) == 2 and all(is_cls(self.p, st, q, "Breakpoint") for q in ends)
            self.add("C09", ok9, "one edge pair", where, f"{pos}: the halves are twins and begin in the two new breakpoints", ends)
            if ok9:
                for h, q, n in zip(pair, ends, inc):
                    bp = rd(I, st, q, "breakpoint")
                    self.add("C11 C09", rd(I, st, q, "edge") == h and isinstance(bp, Tup) and bp.items[1] == n, "edges of breakpoints", where,
                             f"{pos}: each new breakpoint traces the half-edge of the cell on its right", f"{bp} {n}")
                    self.add("C09", rd(I, st, h, "next") == NONE and rd(I, st, h, "prev") == NONE, "links", where,
                             f"{pos}: a new edge is not linked to others", "")
        self.first(sc, st, where, pos, (c,), sc.site)
        self.unlinked(sc, st, where, pos, ())

    def first(self, sc, st, where, pos, must, new=None):
        I = sc.I
        bad = []
        for c, s in list(sc.sites.items()) + ([("new", new)] if new else []):
            e = rd(I, st, s, "first_edge")
            if e == NONE:
                if c in must or c == "new":
                    bad.append(f"{c} has no first edge")
            elif not is_cls(self.p, st, e, "HalfEdge") or rd(I, st, e, "incident_point") != s:
                bad.append(f"the first edge of {c} borders {self.name(sc, rd(I, st, e, 'incident_point')) if isinstance(e, Ref) else e}")
        self.add("C11", not bad, "first edge", where, f"{pos}: a site whose cell has an edge knows an edge of its own cell", bad)

    def unlinked(self, sc, st, where, pos, changed):
        """the half-edges that existed before keep their twins, cells and links, apart from those given"""
        I = sc.I
        bad = []
        for o, (tw, nx, pv, inc, org) in sc.links0.items():
            r = Ref(o)
            now = tuple(rd(I, st, r, n) for n in ("twin", "next", "prev", "incident_point", "origin"))
            for k, a, b in zip(("twin", "next", "prev", "incident point", "origin"), (tw, nx, pv, inc, org), now):
                if a != b and (o, k) not in changed:
                    bad.append(f"{k} of {self.half(sc, st, r)} changed")
        self.add("C09", not bad, "links", where, f"{pos}: nothing else is relinked", bad)

    def half(self, sc, st, r):
        if r in sc.edges:
            return f"the half-edge traced by breakpoint {sc.edges.index(r) + 1}"
        if r in sc.far:
            return f"the twin of the half-edge traced by breakpoint {sc.far.index(r) + 1}"
        return "another half-edge"

    # ------------------------------------------------------------ circle events
    def circle_scenes(self):
        out = []
        top = 6 if self.tier == "thorough" else 5
        for n in range(3, top + 1):
            for _, sh in shapes(n):
                for x in range(1, n - 1):
                    pats = ["abcdef"[:n]]
                    if x >= 2:
                        p = list(pats[0])
                        p[x - 2] = p[x]
                        pats.append("".join(p))
                    if x + 2 < n:
                        p = list(pats[0])
                        p[x + 2] = p[x]
                        pats.append("".join(p))
                    if n == 5 and self.tier != "thorough":
                        pats = pats[:1] if x != 2 else pats
                    for pat in pats:
                        evs = [{i: "valid" for i in range(n)}]
                        if n <= 4:
                            evs.append({i: "invalid" for i in range(n)})
                        if n == 3 or pat != pats[0]:
                            evs = evs[:1] + ([{}] if n <= 4 else [])
                        for ev in evs:
                            out.append((pat, sh, x, {**ev, x: "now"}))
        return out

    def circles(self):
        f = self.p.cls("Algorithm").method("handle_circle_event")
        if f is None:
            raise Unsupported("anchor Algorithm.handle_circle_event not found")
        where = where_fn(f)
        for pat, sh, x, ev in self.circle_scenes():
            sc = Scene(self.p, pat, sh, ev)
            self.scenes += 1
            e = sc.events[x]
            I = sc.I
            sc.put(sc.V, "sweep_line", rd(I, sc.st, e, "yd"))
            st = sc.st
            before = tuple(st.get(sc.queue, "segs"))
            edges0 = st.get(rd(I, st, sc.V, "edges"), "segs")
            sc.valid0 = {i: rd(I, st, z, "is_valid") for i, z in sc.events.items()}
            sc.known = {(sc.arcs[i].oid,) + tuple(sc.sites[c].oid for c in pat[i - 1:i + 2]) for i in range(1, len(pat) - 1)}
            sc.links0 = self.snap(sc, st)
            sc.verts0 = st.get(rd(I, st, sc.V, "vertices"), "segs")
            out, exc = I.run(st, Bound(Fn(f), sc.V), [e], {})
            pos = f"circle event of arc {x + 1} of {len(pat)}"
            for s, z in exc:
                self.add("C02 C09 C10 C11 C12 C13", False, "no exception", where, pos, z)
            self.interps.append((I, len(out)))
            for s, v in out:
                self.paths += 1
                self.after_circle(sc, s, where, pos, before, edges0, x, e)

    def after_circle(self, sc, st, where, pos, before, edges0, x, e):
        self.add("C03", not st.ghost.get("sent"), "each handled event is reported once", where, f"{pos}: handling an event sends debugging messages only",
                 st.ghost.get("sent"))
        I, pat = sc.I, sc.pattern
        sc.expire = (x - 1, x + 1, x)
        ly = r_of(rd(I, st, e, "yd"))
        self.line(sc, st, ly, where, pos)
        s = [sc.sites[k] for k in pat]
        row = self.beach(sc, st, where, s[:x] + s[x + 1:], pos)
        for j in (x - 1, x + 1):
            if j in sc.events and sc.events[j] in before:
                self.add("C02", rd(I, st, sc.events[j], "is_valid") == K(False), "false alarms are cancelled", where,
                         f"{pos}: the circle events of the two neighbours of the vanished arc are cancelled", f"arc {j + 1}")
        self.add("C02", rd(I, st, sc.V, "event_queue") == sc.queue, "scheduling", where, f"{pos}: the event queue is kept", "")
        if row is not None:
            self.pending(sc, st, where, row, before, pos)
            self.bp_edges(sc, st, where, pos)
            kept = [a for _, a, _ in row] == sc.arcs[:x] + sc.arcs[x + 1:]
            self.add("C12", kept, "beach line", where, f"{pos}: the other arcs are kept", "")
        # the vertex
        v1 = st.get(rd(I, st, sc.V, "vertices"), "segs")
        new = [v for v in v1 if v not in sc.verts0]
        ok = len(new) == 1 and len(v1) == len(sc.verts0) + 1 and is_cls(self.p, st, new[0], "Vertex")
        self.add("C10", ok, "one vertex", where, f"{pos}: one vertex is added to the vertices", v1)
        if not ok:
            return
        v = new[0]
        c = rd(I, st, e, "center")
        z = [r_of(rd(I, st, v, n)) - r_of(rd(I, st, c, n)) for n in ("xd", "yd")]
        self.add("C10", all(st.facts.norm(q).is_zero() for q in z), "position of the vertex", where, f"{pos}: the vertex is the centre of the circle", z)
        xy = [rd(I, st, v, n) for n in ("xd", "yd")]
        self.add("C16", all(isinstance(q, Num) and q.kind == "dec" and not q.inexact for q in xy), "exact vertex", where,
                 "the position of a vertex is the exact centre of its circle", xy)
        left, right = sc.edges[x - 1], sc.edges[x]
        halves = [o for o, ob in list(st.heap.items()) if isinstance(ob.cls, ClassInfo) and ob.cls.is_sub(self.p.cls("HalfEdge"))]
        start = [Ref(o) for o in halves if rd(I, st, Ref(o), "origin") == v]
        fresh_ = [h for h in start if h.oid not in sc.links0]
        ok = len(start) == 3 and left in start and right in start and len(fresh_) == 1
        self.add("C10 C09", ok, "edges at the vertex", where, f"{pos}: the two edges that end in the vertex and one new one begin there",
                 [self.half(sc, st, h) for h in start])
        con = rd(I, st, v, "connected_edges")
        segs = list(st.get(con, "segs")) if isinstance(con, Ref) else []
        self.add("C10", sorted(map(str, segs)) == sorted(map(str, start)), "connected edges", where,
                 f"{pos}: the vertex lists exactly the half-edges that start in it", [self.half(sc, st, h) for h in segs])
        if not ok:
            return
        n = fresh_[0]
        t = rd(I, st, n, "twin")
        e1 = st.get(rd(I, st, sc.V, "edges"), "segs")
        add = e1[len(edges0):] if e1[:len(edges0)] == edges0 else None
        self.add("C09", add is not None and len(add) == 1 and add[0] in (n, t), "one edge pair", where,
                 f"{pos}: one half of the new edge is added to the edges", e1)
        inc = [rd(I, st, h, "incident_point") if isinstance(h, Ref) else None for h in (n, t)]
        self.add("C11", inc == [s[x - 1], s[x + 1]], "cells of an edge", where,
                 f"{pos}: the new edge leaves the vertex with the left neighbour's cell on its own side and the right neighbour's on the other",
                 [self.name(sc, q) for q in inc])
        # the other vertices still list what starts in them
        bad = []
        for h in sc.far:
            w = rd(I, st, h, "origin")
            if is_cls(self.p, st, w, "Vertex") and st.get(rd(I, st, w, "connected_edges"), "segs") != (h,):
                bad.append(self.half(sc, st, h))
        self.add("C10", not bad, "connected edges", where, f"{pos}: the lists of other vertices are kept", bad)
        # next and previous around the vertex
        bad9 = []
        for h in start:
            p = rd(I, st, h, "prev")
            d = self.half(sc, st, h) if h != n else "the new half-edge"
            if not is_cls(self.p, st, p, "HalfEdge"):
                bad9.append(f"{d} has no previous half-edge")
                continue
            if rd(I, st, p, "next") != h:
                bad9.append(f"the previous half-edge of {d} continues elsewhere")
            if rd(I, st, p, "incident_point") != rd(I, st, h, "incident_point"):
                bad9.append(f"{d} follows a half-edge of another cell")
            if rd(I, st, p, "twin") not in start:
                bad9.append(f"{d} follows a half-edge that does not end in the vertex")
        self.add("C09 C11", not bad9, "links around the vertex", where, f"{pos}: each half-edge that leaves the vertex follows the one of the same cell that arrives",
                 bad9)
        ch = set()
        for h in (left, right):
            ch |= {(h.oid, "origin"), (h.oid, "prev"), (rd(I, st, h, "twin").oid, "next")}
        self.unlinked(sc, st, where, pos, ch)
        self.first(sc, st, where, pos, ())


def run(prog, rep, pid, sites=True, circles=True):
    s = Step(prog, rep.tier)
    n = 0
    try:
        if sites:
            s.sites()
        if circles:
            s.circles()
    finally:
        for props, ok, rule, where, what, detail in s.obs:
            if pid in props:
                n += 1
                rep.ob(ok, rule, where, what, detail)
    for I, k in s.interps:
        rep.interp(I, k)
        if pid == "C16":
            for w, bad in I.c.cmps.items():
                rep.ob(not bad, "exact comparison", w, "the sweep compares unrounded decimals", bad)
    rep.count("beach_lines", s.scenes)
    rep.count("outcomes_of_events", s.paths)
    rep.assume("before the event the beach line, its edges and its pending events are consistent (the inductive hypothesis)",
               f"beach lines of up to {6 if rep.tier == 'thorough' else 5} arcs around the event are enumerated, in every balanced shape; C12 and C13 cover the "
               "tree operations for every size")
    return n
