"""Drawing (C18): the visualizer and the observers, interpreted on small diagrams with symbolic coordinates.

The plotting library is replaced by a recorder: every call on a canvas becomes a list of primitives (markers, segments, labels, arrows,
circles, polygons, curves) with the values they were given.  What is compared is the set of primitives on each path, not the calls.
"""
import ast
import itertools

from .lib import *
from .edges import Kit, PolyClient
from .interp import EnumVal
from .model import ClassInfo
from . import poly, region

PLT = "matplotlib.pyplot."
IGNORED = {"grid", "axis", "set_aspect", "set_title", "title", "tick_params", "set_xlabel", "set_ylabel", "legend", "ion", "ioff", "draw",
           "set_axisbelow", "tight_layout", "autoscale", "close", "use", "invert_yaxis", "cla", "clf", "sca", "suptitle"}


class P:
    """a primitive: kind, numbers, and what it looks like"""

    def __init__(self, kind, nums=(), canvas=None, where="", **look):
        self.kind, self.nums, self.canvas, self.where, self.look = kind, tuple(nums), canvas, where, look

    def __repr__(self):
        return f"{self.kind}{tuple(map(str, self.nums))}" + (f" {self.look.get('text')}" if "text" in self.look else "")


class DrawClient(PolyClient):
    strings = True

    def __init__(self, prog):
        super().__init__()
        self.p = prog
        f = prog.cls("Breakpoint").method("get_intersection")
        if f is None:
            raise Unsupported("anchor Breakpoint.get_intersection not found")
        self.bp = f
        self.missing = False         # breakpoints have no position
        self.parts = {}
        self.n = 0

    # ------------------------------------------------------------ recording
    @staticmethod
    def log(st, *ps):
        st.ghost["draw"] = st.ghost.get("draw", ()) + ps

    @staticmethod
    def event(st, *e):
        st.ghost["events"] = st.ghost.get("events", ()) + (e,)

    def seq(self, I, st, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref) and st.obj(v).kind in ("list", "set"):
            s = list(st.get(v, "segs"))
            return None if any(isinstance(g, Seg) for g in s) else s
        if is_numlike(v):
            return [v]
        return None

    def xy(self, I, st, v):
        """a position: a pair, or anything with components"""
        s = self.seq(I, st, v)
        if s is None and isinstance(v, Ref):
            return attr(I, st, v, "xd"), attr(I, st, v, "yd")
        if s is None or len(s) != 2:
            raise Unsupported(f"position {v}")
        return s[0], s[1]

    def nums(self, vals, what):
        out = [r_of(v) if v != NONE else R.atom("nowhere") for v in vals]
        if None in out:
            raise Unsupported(f"{what}: drawn at {[v for v, r in zip(vals, out) if r is None]}")
        return out

    def canvas_call(self, I, st, cv, name, a, kw, node):
        w = I.where(node)
        col = kw.get("color", kw.get("c", kw.get("edgecolor", kw.get("ec"))))
        if name == "plot":
            if len(a) < 2:
                raise Unsupported(f"plot with {len(a)} arguments at {w}")
            if len(a) > 2 and col is None:
                col = a[2]
            look = dict(color=col, zorder=kw.get("zorder"), style=kw.get("linestyle", kw.get("ls")))
            if isinstance(a[0], Num) and a[0].kind == "np":
                self.log(st, P("curve", self.nums(a[:2], "curve"), cv, w, **look))
                return [(st, Opq(typ="obj"))]
            xs, ys = self.seq(I, st, a[0]), self.seq(I, st, a[1])
            if xs is None or ys is None:
                raise Unsupported(f"plot of {a[:2]} at {w}")
            if len(xs) != len(ys):
                I.raise_(st, "ValueError", node)
                return []
            for i in range(len(xs) - 1):
                self.log(st, P("segment", self.nums((xs[i], ys[i], xs[i + 1], ys[i + 1]), "line"), cv, w, **look))
        elif name in ("axvline", "axhline", "hlines", "vlines"):
            v = a[0] if a else kw.get("x", kw.get("y"))
            if name in ("axvline", "axhline"):
                self.log(st, P(name, self.nums([v], name), cv, w, color=col))
            else:
                b = list(a) + [kw.get(n) for n in (("y", "xmin", "xmax") if name == "hlines" else ("x", "ymin", "ymax"))[len(a):]]
                c, lo, hi = self.nums(b[:3], name)
                self.log(st, P("segment", (lo, c, hi, c) if name == "hlines" else (c, lo, c, hi), cv, w, color=col))
        elif name == "scatter":
            xs, ys = (self.seq(I, st, v) for v in (a + [kw.get("x"), kw.get("y")])[:2])
            if xs is None or ys is None:
                raise Unsupported(f"scatter of {a[:2]} at {w}")
            if len(xs) != len(ys):
                I.raise_(st, "ValueError", node)
                return []
            for x, y in zip(xs, ys):
                self.log(st, P("marker", self.nums((x, y), "marker"), cv, w, color=col, zorder=kw.get("zorder"), kw=kw))
        elif name == "text":
            x, y = (list(a) + [kw.get("x"), kw.get("y")])[:2] if len(a) >= 2 else (kw.get("x"), kw.get("y"))
            s = kw.get("s", a[2] if len(a) > 2 else None)
            self.log(st, P("label", self.nums((x, y), "label"), cv, w, text=s, color=col))
        elif name == "annotate":
            s = kw.get("text", a[0] if a else None)
            at = kw.get("xy", a[1] if len(a) > 1 else None)
            frm = kw.get("xytext", a[2] if len(a) > 2 else None)
            x, y = self.xy(I, st, at)
            props = kw.get("arrowprops", NONE)
            if props != NONE and frm is not None:
                u, v = self.xy(I, st, frm)
                self.log(st, P("arrow", self.nums((u, v, x, y), "arrow"), cv, w, text=s, props=self.items(st, props)))
            else:
                self.log(st, P("label", self.nums((x, y), "label"), cv, w, text=s, color=col, kw=kw))
        elif name == "arrow":
            x, y, u, v = self.nums((list(a) + [kw.get(n) for n in ("x", "y", "dx", "dy")[len(a):]])[:4], "arrow")
            self.log(st, P("arrow", (x, y, x + u, y + v), cv, w, props=kw))
        elif name in ("add_patch", "add_artist", "add_line"):
            d = st.ghost.get("patch", {}).get(a[0].key) if isinstance(a[0], Opq) else None
            if d is None:
                raise Unsupported(f"{name} of {a[0]} at {w}")
            self.log(st, P(d[0], d[1], cv, w, **d[2]))
        elif name == "fill":
            raise Unsupported(f"fill at {w}")
        elif name in ("set_xlim", "set_ylim"):
            lo, hi = (a + [kw.get("left", kw.get("bottom", kw.get("xmin", kw.get("ymin")))), kw.get("right", kw.get("top", kw.get("xmax", kw.get("ymax"))))])[:2] \
                if len(a) != 1 else self.xy(I, st, a[0])
            self.event(st, name, cv, self.nums((lo, hi), name), w)
        elif name == "set":
            for n in ("xlim", "ylim"):
                if n in kw:
                    self.event(st, "set_" + n, cv, self.nums(self.xy(I, st, kw[n]), n), w)
        elif name in ("get_figure",):
            return [(st, Opq(f"{cv}.figure", "obj"))]
        elif name in ("clear", "cla", "remove"):
            self.event(st, "clear", cv)
        elif name not in IGNORED and any(not isinstance(x, K) for x in a):
            raise Unsupported(f"call of {name} on the canvas at {w}")
        return [(st, Opq(typ="obj"))]

    def items(self, st, v):
        if isinstance(v, Ref) and st.obj(v).kind == "dict":
            return {k.v if isinstance(k, K) else repr(k): x for k, x in st.obj(v).fields.get("items", ())}
        return {}

    def on_opaque_call(self, I, st, fv, args, kwargs, node):
        key = fv.key if isinstance(fv.key, str) else ""
        head, _, name = key.rpartition(".")
        if head.startswith("fig") and name in ("add_subplot", "subplots", "gca", "add_axes"):
            return [(st, Opq("ax" + head[3:], "obj"))]
        if head.startswith("fig") or head.endswith(".figure"):
            self.event(st, "figure." + name, head, tuple(args), dict(kwargs))
            return [(st, Opq(typ="obj"))]
        if head.startswith("ax"):
            return self.canvas_call(I, st, head, name, list(args), kwargs, node)
        if head.startswith("dot"):
            self.event(st, "dot." + name, head, tuple(args), dict(kwargs), I.where(node))
            return [(st, Opq(typ="obj"))]
        if key.startswith("callback"):
            self.event(st, "callback", key, tuple(args), dict(kwargs), self.count_of(st), I.where(node))
            return [(st, Opq(typ="obj"))]
        return None

    def count_of(self, st):
        o = st.ghost.get("observer")
        return st.get(o, "n_messages") if o is not None else None

    def on_ext(self, I, st, path, args, kwargs, node):
        if path.startswith("matplotlib."):
            name = path.rsplit(".", 1)[1]
            if name == "subplots" or name == "figure":
                n = st.ghost.get("figs", 0)
                st.ghost["figs"] = n + 1
                fs = kwargs.get("figsize", args[0] if name == "figure" and args and not is_numlike(args[0]) else None)
                self.event(st, "figure", f"fig{n}", fs)
                fig, ax = Opq(f"fig{n}", "obj"), Opq(f"ax{n}", "obj")
                return [(st, Tup((fig, ax)) if name == "subplots" else fig)]
            if name == "Circle":
                c = kwargs.get("xy", args[0] if args else None)
                r = kwargs.get("radius", args[1] if len(args) > 1 else None)
                x, y = self.xy(I, st, c)
                return self.patch(st, "circle", self.nums((x, y, r), "circle"), kwargs)
            if name == "Polygon":
                v = kwargs.get("xy", args[0] if args else None)
                s = self.seq(I, st, v)
                if s is None:
                    raise Unsupported(f"polygon of {v} at {I.where(node)}")
                return self.patch(st, "polygon", self.nums([c for q in s for c in self.xy(I, st, q)], "polygon"), kwargs)
            if name == "Rectangle":
                v = kwargs.get("xy", args[0] if args else None)
                x, y = self.nums(self.xy(I, st, v), "rectangle")
                b = list(args[1:3]) + [kwargs.get(n) for n in ("width", "height")[len(args[1:3]):]]
                w, h = self.nums(b, "rectangle")
                return self.patch(st, "polygon", [x, y, x + w, y, x + w, y + h, x, y + h], kwargs)
            if name == "Line2D":
                xs, ys = self.seq(I, st, args[0]), self.seq(I, st, args[1])
                return self.patch(st, "segment", self.nums((xs[0], ys[0], xs[1], ys[1]), "line"), kwargs)
            if name in ("gca", "gcf"):
                n = st.ghost.get("figs", 1) - 1
                return [(st, Opq(("ax" if name == "gca" else "fig") + str(n), "obj"))]
            if name == "show":
                self.event(st, "show", tuple(args), dict(kwargs))
                return [(st, NONE)]
            if name == "title":
                self.event(st, "title", f"ax{st.ghost.get('figs', 1) - 1}", args[0] if args else kwargs.get("label"))
                return [(st, Opq(typ="obj"))]
            if name in ("plot", "scatter", "text", "annotate", "axvline", "axhline", "hlines", "vlines", "fill", "arrow"):
                return self.canvas_call(I, st, f"ax{st.ghost.get('figs', 1) - 1}", name, list(args), kwargs, node)
            if name in ("xlim", "ylim"):
                return self.canvas_call(I, st, f"ax{st.ghost.get('figs', 1) - 1}", "set_" + name, list(args), kwargs, node)
            if name in IGNORED:
                return [(st, NONE)]
            raise Unsupported(f"{path} at {I.where(node)}")
        if path in ("numpy.linspace",):
            self.event(st, "grid", self.nums(args[:2], "linspace"))
            return [(st, Num(R.atom("grid"), "np"))]
        if path in ("numpy.min", "numpy.amin", "numpy.nanmin", "numpy.minimum.reduce", "numpy.max", "numpy.amax", "numpy.nanmax"):
            s = self.seq(I, st, args[0])
            if s is not None and all(isinstance(v, Num) for v in s):
                self.event(st, "envelope", path, [v.r for v in s], kwargs.get("axis", args[1] if len(args) > 1 else None))
                return [(st, Num(R.atom("bottom"), "np"))]
        if path in ("numpy.nanargmin", "numpy.argmin"):
            s = self.seq(I, st, args[0])
            if s is None or not all(isinstance(v, Num) for v in s):
                raise Unsupported(f"{path} of {args[0]} at {I.where(node)}")
            self.event(st, "lowest", [v.r for v in s], kwargs.get("axis", args[1] if len(args) > 1 else None))
            return [(st, Opq("lowest", "array"))]
        if path in ("numpy.unique", "builtins.set") and args and args[0] == Opq("lowest"):
            n = len([e for e in st.ghost["events"] if e[0] == "lowest"][-1][1])
            return [(st, Tup([K(i) for i in range(n)]))]
        if path in ("numpy.nanmedian", "numpy.median", "numpy.nanmean", "numpy.mean") and args and isinstance(args[0], Num):
            return [(st, args[0])]
        if path == "uuid.uuid4":
            return [(st, Opq(fresh("uuid"), "str"))]
        if path.startswith("graphviz."):
            n = st.ghost.get("dots", 0)
            st.ghost["dots"] = n + 1
            return [(st, Opq(f"dot{n}", "obj"))]
        if path == "builtins.print":
            self.event(st, "print", tuple(args))
            return [(st, NONE)]
        if path == "builtins.hasattr" and isinstance(args[0], Ref) and isinstance(args[1], K):
            ob = st.obj(args[0])
            c = ob.cls
            if isinstance(c, ClassInfo):
                return [(st, K(args[1].v in ob.fields or any(t is not None for t in (c.method(args[1].v), c.getter(args[1].v), c.attr(args[1].v)))))]
        return super().on_ext(I, st, path, args, kwargs, node)

    def patch(self, st, kind, nums, kw):
        o = Opq(fresh("patch"), "obj")
        col = kw.get("edgecolor", kw.get("ec", kw.get("color")))
        st.ghost["patch"] = {**st.ghost.get("patch", {}), o.key: (kind, nums, dict(color=col, fill=kw.get("fill"), kw=kw))}
        return [(st, o)]

    def on_array_part(self, I, st, arr, index, node):
        """the positions of the canvas where one arc is the lowest"""
        todo, hit = [index], None
        while todo:
            v = todo.pop()
            if isinstance(v, Opq):
                if Opq("lowest") in v.src:
                    hit = next((x.v for x in v.src if isinstance(x, K)), hit)
                todo += v.src
        return arr if hit is None else Num(R.atom(f"{arr.r}[{hit}]"), "np")

    # ------------------------------------------------------------ stand-ins
    def intercept(self, I, st, fv, args, kwargs, node):
        f, first = region.callee(fv)
        if f is None:
            return super().intercept(I, st, fv, args, kwargs, node)
        if f.node is self.bp.node:
            a = region.arguments(f, first, args, kwargs)
            b, l, top = (a + [None, None, None])[:3]
            self.event(st, "breakpoint", b, l, top)
            if self.missing:
                return [(st, NONE)]
            r = r_of(l)
            n = f"{b.oid}@{r if r is not None else l}"
            x, c = make(I, st, "Coordinate", num(n + ".x"), num(n + ".y"))
            return [(x, c)]
        part = self.parts.get(id(f.node))
        if part is not None:
            a = region.arguments(f, first, args, kwargs)
            names = [x.arg for x in f.node.args.args]
            vals = dict(zip(names, a))
            d = f.node.args.defaults
            for n, e in zip(names[len(names) - len(d):], d):
                if vals.get(n) is None:
                    vals[n] = I.default_value(st, f, e)
            self.event(st, "part", part, vals, I.where(node))
            return [(st, vals[names[0]])]
        return None


# ====================================================================== scenes
PART = {"plot_sweep_line": "sweep_line", "plot_polygon": "polygon", "plot_edges": "edges", "plot_border_to_site": "border_to_site",
        "plot_vertices": "vertices", "plot_sites": "sites", "plot_outgoing_edges": "outgoing_edges", "plot_event": "events",
        "plot_arcs": "beach_line"}
PASSED = {"plot_edges": {"show_labels": "edge_labels"}, "plot_sites": {"show_labels": "site_labels"}, "plot_outgoing_edges": {"scale": "scale"},
          "plot_event": {"triangles": "triangles"}, "plot_arcs": {"plot_arcs": "arcs", "show_labels": "arc_labels"}}


def half(a, b):
    return (a + b) / R.const(2)


class Scene:
    """a diagram of two sites, three vertices, a finished and an unfinished edge, and a visualizer of it"""

    def __init__(self, prog, kind="polygon", missing=False):
        self.p = prog
        self.cl = DrawClient(prog)
        self.cl.missing = missing
        k = self.k = Kit(prog, self.cl)
        if kind == "polygon":
            self.region = k.polygon()
        elif kind == "box":
            self.region = k.mk("BoundingBox", num("left"), num("right"), num("bottom"), num("top"))
        else:
            self.region = k.mk("BoundingCircle", num("o.x"), num("o.y"), num("rad"))
        V = self.V = k.mk("Algorithm", self.region)
        self.s1, self.s2 = (k.mk("Point", num(n + ".x"), num(n + ".y")) for n in ("s1", "s2"))
        for s, n in ((self.s1, 0), (self.s2, 7)):
            k.put(s, "name", K(n))
        self.a, self.b, self.c = (k.vertex(n) for n in "abc")
        self.e1, self.t1 = k.pair("e1", self.s1, self.s2, self.a, self.b)
        self.bp = k.mk("Breakpoint", Tup((self.s1, self.s2)))
        self.e2, self.t2 = k.pair("e2", self.s2, self.s1, self.b, self.bp)
        self.e3, self.t3 = k.pair("e3", self.s2, self.s1, self.c, self.a)
        k.put(self.s1, "first_edge", self.e1)
        k.put(self.s2, "first_edge", self.t1)
        k.put(V, "sites", k.st.mklist((self.s1, self.s2)))
        k.put(V, "edges", k.st.mklist((self.e1, self.e2)))
        k.put(V, "sweep_line", num("L"))
        k.push(self.field("vertices"), self.a, self.b)
        self.arc1, self.arc2 = (k.mk("Arc", s) for s in (self.s1, self.s2))
        k.push(self.field("arcs"), self.arc1, self.arc2)
        leaf = k.mk("LeafNode", self.arc1)
        self.circ = k.mk("CircleEvent", center=k.mk("Coordinate", num("m.x"), num("m.y")), radius=num("m.r"), arc_node=leaf,
                         point_triple=Tup((self.s1, self.s2, self.c)))
        self.site_event = k.mk("SiteEvent", self.s1)
        k.put(V, "event", self.circ)

    def field(self, public):
        r = self.k.st.get(self.V, self.p.field_of("Algorithm", public))
        if not isinstance(r, Ref):
            raise Unsupported(f"anchor Algorithm.{public} not found")
        return r

    def visualizer(self, offset=None, **kw):
        self.off = A("off")
        self.vis = self.k.mk("Visualizer", self.V, canvas_offset=num("off"), **kw)
        self.figs = self.k.st.ghost.get("events", ())
        self.canvas = f"ax{self.k.st.ghost.get('figs', 0) - 1}"
        self.k.st.ghost.pop("draw", None)
        self.k.st.ghost.pop("events", None)
        return self.vis

    def extent(self, st, name):
        return r_of(self.k.get(self.region, name, st))

    def pos(self, v):
        """name of a coordinate -> numbers"""
        return A(v + ".x"), A(v + ".y")

    def at_bp(self, l):
        n = f"{self.bp.oid}@{l}"
        return A(n + ".x"), A(n + ".y")

    def call(self, name, *args, **kw):
        f = self.k.method(self.vis, name)
        return self.k.I.run(self.k.st.copy(), Bound(Fn(f), self.vis), list(args), kw)


def same(st, a, b):
    return len(a) == len(b) and all(x is y or st.facts.sign(x - y) == {0} for x, y in zip(a, b))


def matches(st, p, want):
    """does a recorded primitive show the wanted one?  segments have no direction"""
    if p.kind != want[0]:
        return False
    if p.kind == "segment":
        n = p.nums
        return same(st, n, want[1]) or same(st, n[2:] + n[:2], want[1])
    if p.kind == "polygon":
        prs = lambda v: [tuple(v[i:i + 2]) for i in range(0, len(v), 2)]
        a, b = prs(p.nums), prs(want[1])
        if len(a) > len(b) and same(st, a[0], a[-1]):
            a = a[:-1]
        if len(a) != len(b):
            return False
        return any(all(same(st, x, y) for x, y in zip(r[i:] + r[:i], b)) for r in (a, a[::-1]) for i in range(len(a)))
    return same(st, p.nums, want[1])


class Draw:
    def __init__(self, prog, tier):
        self.p, self.tier = prog, tier
        self.obs, self.interps, self.paths = [], [], 0
        self.vis = prog.cls("Visualizer")

    def add(self, ok, rule, where, what, detail=""):
        self.obs.append((bool(ok), rule, where, what, detail))

    def w(self, cls, name):
        f = self.p.cls(cls).method(name)
        if f is None:
            raise Unsupported(f"anchor {cls}.{name} not found")
        return where_fn(f)

    def const(self, name):
        """a colour the module names; None when it does not"""
        try:
            c = self.p.cls("Colors")
        except Unsupported:
            return None
        e = c.attrs.get(name)
        return K(e.value) if isinstance(e, ast.Constant) else None

    def outcome(self, sc, name, what, out, exc, chain=True):
        w = self.w("Visualizer", name)
        for st, e in exc:
            self.add(False, "no exception", w, what, e)
        self.add(out or exc, "no exception", w, what, "no outcome")
        self.paths += len(out)
        for st, v in out:
            if chain:
                self.add(v == sc.vis, "commands can be chained", w, f"{name} returns the visualizer", v)
        return w

    def compare(self, sc, st, w, rule, what, want, kinds=("segment", "marker", "label", "arrow", "circle", "polygon", "curve", "axvline", "axhline")):
        """the primitives drawn are those wanted, no more and no less.  want: [(kind, numbers, {look})]"""
        got = [p for p in st.ghost.get("draw", ()) if p.kind in kinds]
        extra = [p for p in got if not any(matches(st, p, x) for x in want)]
        self.add(not extra, rule, extra[0].where if extra else w, f"{what}: nothing else is drawn", extra)
        for x in want:
            hits = [p for p in got if matches(st, p, x)]
            self.add(hits, rule, w, f"{what}: a {x[0]} is drawn {x[3] if len(x) > 3 else 'where it belongs'}", f"{tuple(map(str, x[1]))} is missing")
            for p in hits:
                self.add(p.canvas == sc.canvas, "on its own canvas", p.where, f"{what}: drawn on the visualizer's canvas", p.canvas)
                for n, v in (x[2] if len(x) > 2 else {}).items():
                    have = p.look.get(n)
                    if callable(v):
                        self.add(v(have), rule, p.where, f"{what}: the {n} of a {x[0]}", have)
                    elif v is not None:
                        self.add(have == v, rule, p.where, f"{what}: the {n} of a {x[0]}", f"{have} instead of {v}")

    def lists(self, sc, default, other):
        """the ways of giving elements: not at all, None, others, none at all"""
        k = sc.k
        return [("by default", (), default), ("None given", (NONE,), default), ("others given", (k.st.mklist(other),), other),
                ("an empty list given", (k.st.mklist(()),), ())]

    # ------------------------------------------------------------ the canvas
    def setup(self):
        for kind in ("polygon", "box", "circle"):
            sc = Scene(self.p, kind)
            fig = Tup((num("fw"), num("fh")))
            sc.visualizer(figsize=fig)
            self.interps.append(sc.k.I)
            w = self.w("Visualizer", "__init__")
            made = [e for e in sc.figs if e[0] == "figure"]
            self.add(len(made) == 1, "one figure", w, "a visualizer makes one figure", made)
            self.add(made and made[-1][2] == fig, "figure size", w, "the figure has the size given", made)
            for name, how in (("get_canvas", ()), ("show", ())):
                out, exc = sc.call(name, *how)
                wm = self.outcome(sc, name, f"{name} of a {kind}", out, exc, chain=name == "show")
                for st, v in out:
                    self.limits(sc, st, wm, f"{name}, {kind}")
                    if name == "get_canvas":
                        self.add(v == Opq(f"{sc.canvas}.figure") or v == Opq("fig" + sc.canvas[2:]), "the figure handed out", wm, "get_canvas returns the visualizer's figure", v)
                    else:
                        ev = [e for e in st.ghost.get("events", ()) if e[0] == "show"]
                        self.add(len(ev) == 1, "show", wm, "show shows the figures once", ev)
        for block in (K(True), K(False)):
            out, exc = sc.call("show", block=block)
            for st, v in out:
                for e in st.ghost.get("events", ()):
                    if e[0] == "show":
                        self.add(e[2].get("block", e[1][0] if e[1] else None) == block, "show", wm, "show passes `block`", e)

    def limits(self, sc, st, w, what):
        last = {}
        for e in st.ghost.get("events", ()):
            if e[0] in ("set_xlim", "set_ylim") and e[1] == sc.canvas:
                last[e[0]] = e
        for n, lo, hi in (("set_xlim", "min_x", "max_x"), ("set_ylim", "min_y", "max_y")):
            want = (sc.extent(st, lo) - sc.off, sc.extent(st, hi) + sc.off)
            ok = n in last and same(st, tuple(last[n][2]), want)
            self.add(ok, "canvas size", last[n][3] if n in last else w, f"{what}: the canvas spans the region and the offset in {n[4]}", last.get(n) and [str(x) for x in last[n][2]])

    # ------------------------------------------------------------ parts
    def polygon(self):
        for kind in ("polygon", "box", "circle"):
            sc = Scene(self.p, kind)
            sc.visualizer()
            out, exc = sc.call("plot_polygon")
            self.interps.append(sc.k.I)
            w = self.outcome(sc, "plot_polygon", f"outline of a {kind}", out, exc)
            hollow = {"fill": lambda v: v == K(False) or v is None}
            for st, v in out:
                if kind == "circle":
                    want = [("circle", (A("o.x"), A("o.y"), A("rad")), hollow)]
                elif kind == "box":
                    l, r, b, t = (A(n) for n in ("left", "right", "bottom", "top"))
                    want = [("polygon", (l, b, r, b, r, t, l, t), hollow)]
                else:
                    o2, _ = sc.k.I.run(st.copy(), Bound(Fn(sc.k.method(sc.region, "get_coordinates")), sc.region), [])
                    s2, c = o2[0]
                    want = [("polygon", tuple(sc.cl.nums([z for q in sc.cl.seq(sc.k.I, s2, c) for z in sc.cl.xy(sc.k.I, s2, q)], "corners")), hollow)]
                self.compare(sc, st, w, "the outline is that of the region", f"outline of a {kind}", want)

    def vertices(self):
        sc = Scene(self.p)
        sc.visualizer()
        self.interps.append(sc.k.I)
        for how, args, els in self.lists(sc, (sc.a, sc.b), (sc.c,)):
            out, exc = sc.call("plot_vertices", *args)
            w = self.outcome(sc, "plot_vertices", f"vertices, {how}", out, exc)
            for st, v in out:
                self.compare(sc, st, w, "the vertices are drawn", f"vertices, {how}", [("marker", sc.pos(n)) for n, x in (("a", sc.a), ("b", sc.b), ("c", sc.c)) if x in els])
        out, exc = sc.call("plot_vertices", alpha=K(5))
        w = self.outcome(sc, "plot_vertices", "vertices with a matplotlib option", out, exc)
        for st, v in out:
            self.compare(sc, st, w, "the vertices are drawn", "vertices with a matplotlib option",
                         [("marker", sc.pos(n), {"kw": lambda kw: kw.get("alpha") == K(5)}) for n in "ab"])

    def sites(self):
        sc = Scene(self.p)
        sc.visualizer()
        self.interps.append(sc.k.I)
        extra = sc.k.mk("Point", num("s3.x"), num("s3.y"))
        for how, args, els in self.lists(sc, (sc.s1, sc.s2), (extra, sc.s2)):
            for lab in (None, True, False):
                for look in ({}, {"color": K("#123456"), "zorder": K(3)}):
                    kw = dict(look)
                    if lab is not None:
                        kw["show_labels"] = K(lab)
                    out, exc = sc.call("plot_sites", *args, **kw)
                    what = f"sites, {how}" + ("" if lab is None else f", show_labels={lab}")
                    w = self.outcome(sc, "plot_sites", what, out, exc)
                    names = [("s1", sc.s1, "P0"), ("s2", sc.s2, "P7"), ("s3", extra, "P")]
                    for st, v in out:
                        want = [("marker", sc.pos(n), {a: b for a, b in look.items()}) for n, x, t in names if x in els]
                        if lab is not False:
                            want += [("label", sc.pos(n), {"text": K(t)}) for n, x, t in names if x in els]
                        self.compare(sc, st, w, "the sites are drawn", what, want)

    def sweeps(self, sc):
        """the ways of giving a sweep line"""
        return [("by default", {}, "L"), ("None given", {"sweep_line": NONE}, "L"), ("another given", {"sweep_line": num("M")}, "M"), ("0 given", {"sweep_line": K(0)}, "0")]

    def edges(self):
        for missing in (False, True):
            sc = Scene(self.p, missing=missing)
            sc.visualizer()
            self.interps.append(sc.k.I)
            for how, args, els in self.lists(sc, (sc.e1, sc.e2), (sc.e3,)):
                for sw, kw0, l in self.sweeps(sc):
                    for lab in (None, True, False):
                        for color in (None, K("#123456")):
                            if (lab is not None or color) and sw not in ("by default", "another given"):
                                continue
                            kw = dict(kw0)
                            if lab is not None:
                                kw["show_labels"] = K(lab)
                            if color:
                                kw["color"] = color
                            out, exc = sc.call("plot_edges", *args, **kw)
                            what = f"edges, {how}, sweep line {sw}" + ("" if lab is None else f", show_labels={lab}")
                            w = self.outcome(sc, "plot_edges", what, out, exc)
                            ends = [(sc.e1, sc.pos("a"), sc.pos("b"), "P0/P7"), (sc.e3, sc.pos("c"), sc.pos("a"), "P7/P0")]
                            if not missing:
                                ends.append((sc.e2, sc.pos("b"), sc.at_bp(l), "P7/P0"))
                            for st, v in out:
                                want = []
                                for e, p, q, t in ends:
                                    if e in els:
                                        want.append(("segment", p + q, {"color": color}))
                                        if lab is not False:
                                            want.append(("label", (half(p[0], q[0]), half(p[1], q[1])), {"text": self.edge_text(sc, st, e)}))
                                self.compare(sc, st, w, "the edges are drawn", what, want)
                                self.tops(sc, st, w, what)

    def edge_text(self, sc, st, e):
        """the label of an edge: the text of the edge, which names its cell and its twin's"""
        a = sc.k.get(e, "incident_point", st), sc.k.get(sc.k.get(e, "twin", st), "incident_point", st)
        out = []
        for p in a:
            for x, v in sc.k.I.text_of(st.copy(), p, None):
                out.append(v)
        if len(out) == 2 and all(isinstance(v, K) for v in out):
            return K(f"{out[0].v}/{out[1].v}")
        raise Unsupported(f"the texts of the sites are {out}")

    def tops(self, sc, st, w, what):
        """a breakpoint is asked for a position on the canvas"""
        for e in st.ghost.get("events", ()):
            if e[0] == "breakpoint":
                t = r_of(e[3]) if e[3] is not None else None
                ok = t is not None and st.facts.sign(t - sc.extent(st, "max_y") - sc.off) == {0}
                self.add(ok, "unfinished ends", w, f"{what}: infinitely high ends are drawn at the top of the canvas", e[3])

    def borders(self):
        for missing in (False, True):
            sc = Scene(self.p, missing=missing)
            sc.visualizer()
            self.interps.append(sc.k.I)
            for how, args, els in self.lists(sc, (sc.e1, sc.e2), (sc.e3,)):
                for sw, kw, l in self.sweeps(sc):
                    out, exc = sc.call("plot_border_to_site", *args, **kw)
                    what = f"pointers to the sites, {how}, sweep line {sw}"
                    w = self.outcome(sc, "plot_border_to_site", what, out, exc)
                    ends = [(sc.e1, sc.pos("a"), sc.pos("b"), True), (sc.e3, sc.pos("c"), sc.pos("a"), False)]
                    if not missing:
                        ends.append((sc.e2, sc.pos("b"), sc.at_bp(l), False))
                    for st, v in out:
                        want = []
                        first = self.const("FIRST_EDGE")
                        for e, p, q, f in ends:
                            if e in els:
                                m = (half(p[0], q[0]), half(p[1], q[1]))
                                for s in ("s1", "s2"):
                                    want.append(("segment", m + sc.pos(s), {"color": None if first is None else (lambda c, f=f: (c == first) == f)}))
                        self.compare(sc, st, w, "the pointers to the sites are drawn", what, want)
                        self.tops(sc, st, w, what)
        # an edge whose cell is not known
        sc = Scene(self.p)
        sc.visualizer()
        sc.k.put(sc.t1, "incident_point", NONE)
        out, exc = sc.call("plot_border_to_site", sc.k.st.mklist((sc.e1,)))
        w = self.outcome(sc, "plot_border_to_site", "an edge without a cell on one side", out, exc)
        for st, v in out:
            m = (half(A("a.x"), A("b.x")), half(A("a.y"), A("b.y")))
            self.compare(sc, st, w, "the pointers to the sites are drawn", "an edge without a cell on one side", [("segment", m + sc.pos("s1"))])

    def outgoing(self):
        sc = Scene(self.p, missing=True)
        sc.visualizer()
        self.interps.append(sc.k.I)
        for how, args, els in self.lists(sc, (sc.a, sc.b), (sc.c,)):
            for kw in ({"scale": num("sc", "float")}, {}, {"scale": num("sc", "dec"), "alpha": K(5)}):
                out, exc = sc.call("plot_outgoing_edges", *args, **kw)
                what = f"outgoing edges, {how}"
                w = self.outcome(sc, "plot_outgoing_edges", what, out, exc)
                ways = [(sc.a, "a", sc.pos("b")), (sc.a, "a", sc.pos("c")), (sc.b, "b", sc.pos("a")), (sc.c, "c", sc.pos("a"))]
                for st, v in out:
                    self.arrows(sc, st, w, what, [(n, q) for x, n, q in ways if x in els], A("sc") if kw else None, "alpha" in kw)

        # an edge without length has no direction
        sc = Scene(self.p, missing=True)
        sc.visualizer()
        self.interps.append(sc.k.I)
        d = sc.k.vertex("a")
        sc.k.pair("z", sc.s1, sc.s2, d, sc.k.vertex("a"))
        out, exc = sc.call("plot_outgoing_edges", sc.k.st.mklist((d,)))
        w = self.outcome(sc, "plot_outgoing_edges", "an edge of length zero", out, exc)

    def many(self):
        """a larger diagram: seven vertices, six of them joined to the first, six sites and arcs; all elements are treated alike"""
        sc = Scene(self.p, missing=True)
        k = sc.k
        self.interps.append(k.I)
        ns = [f"v{i}" for i in range(7)]
        vs = [k.vertex(n) for n in ns]
        pts = [k.mk("Point", num(f"p{i}.x"), num(f"p{i}.y")) for i in range(6)]
        for i, p in enumerate(pts):
            k.put(p, "name", K(10 + i))
        for i in range(1, 7):
            k.st.facts.assume(A(f"v{i}.x") - A("v0.x"), frozenset((1,)))
        es = [k.pair(f"m{i}", pts[i - 1], pts[i % 6], vs[0], vs[i])[0] for i in range(1, 7)]
        for i, p in enumerate(pts):
            k.put(p, "first_edge", es[i])
            k.st.facts.assume(A(f"p{i}.y") - A("L"), frozenset((1,)))
        arcs = [k.mk("Arc", p) for p in pts]
        for n, els in (("vertices", vs), ("arcs", arcs)):
            k.st.set(sc.field(n), "segs", ())
            k.push(sc.field(n), *els)
        k.put(sc.V, "sites", k.st.mklist(tuple(pts)))
        k.put(sc.V, "edges", k.st.mklist(tuple(es)))
        sc.visualizer()
        ends = [(e, sc.pos("v0"), sc.pos(n), i) for i, (e, n) in enumerate(zip(es, ns[1:]))]
        out, exc = sc.call("plot_vertices")
        w = self.outcome(sc, "plot_vertices", "many vertices", out, exc)
        for st, v in out:
            self.compare(sc, st, w, "the vertices are drawn", "many vertices", [("marker", sc.pos(n)) for n in ns])
        out, exc = sc.call("plot_sites")
        w = self.outcome(sc, "plot_sites", "many sites", out, exc)
        for st, v in out:
            self.compare(sc, st, w, "the sites are drawn", "many sites",
                         [("marker", sc.pos(f"p{i}")) for i in range(6)] + [("label", sc.pos(f"p{i}"), {"text": K(f"P{10 + i}")}) for i in range(6)])
        out, exc = sc.call("plot_edges")
        w = self.outcome(sc, "plot_edges", "many edges", out, exc)
        for st, v in out:
            want = [("segment", p + q) for e, p, q, i in ends]
            want += [("label", (half(p[0], q[0]), half(p[1], q[1])), {"text": self.edge_text(sc, st, e)}) for e, p, q, i in ends]
            self.compare(sc, st, w, "the edges are drawn", "many edges", want)
        out, exc = sc.call("plot_border_to_site")
        w = self.outcome(sc, "plot_border_to_site", "many edges", out, exc)
        first = self.const("FIRST_EDGE")
        for st, v in out:
            want = []
            for e, p, q, i in ends:
                m = (half(p[0], q[0]), half(p[1], q[1]))
                for j, f in ((i, True), ((i + 1) % 6, False)):
                    want.append(("segment", m + sc.pos(f"p{j}"), {"color": None if first is None else (lambda c, f=f: (c == first) == f)}))
            self.compare(sc, st, w, "the pointers to the sites are drawn", "many edges", want)
        out, exc = sc.call("plot_outgoing_edges")
        w = self.outcome(sc, "plot_outgoing_edges", "many edges at a vertex", out, exc)
        for st, v in out:
            self.arrows(sc, st, w, "many edges at a vertex", [("v0", q) for e, p, q, i in ends] + [(n, sc.pos("v0")) for n in ns[1:]], None, False)
        out, exc = sc.call("plot_arcs", plot_arcs=K(True), show_labels=K(True))
        w = self.outcome(sc, "plot_arcs", "many arcs", out, exc)
        for st, v in out:
            self.beach(sc, st, w, "many arcs", [(f"p{i}", 10 + i) for i in range(6)], A("L"), True, True)

    def arrows(self, sc, st, w, what, ways, scale, opts):
        rule = "the outgoing edges are drawn"
        got = [p for p in st.ghost.get("draw", ())]
        left = list(got)
        for n, q in ways:
            p = sc.pos(n)
            d = (q[0] - p[0], q[1] - p[1])
            sq = d[0] * d[0] + d[1] * d[1]
            if st.facts.sign(sq) == {0} or st.facts.sign(sqrt(sq)) == {0}:
                continue          # no direction
            hit = None
            for a in got:
                if a.kind == "arrow" and same(st, a.nums[:2], p):
                    v = (a.nums[2] - a.nums[0], a.nums[3] - a.nums[1])
                    if st.facts.sign(v[0] * d[1] - v[1] * d[0]) == {0}:
                        hit = a, v
                        break
            self.add(hit, rule, w, f"{what}: an arrow along each edge at its vertex", f"{n} -> {tuple(map(str, q))} is missing")
            if hit:
                a, v = hit
                if a in left:
                    left.remove(a)
                if scale is not None:
                    f = st.facts.copy()
                    f.assume(scale, frozenset((1,)))
                    self.add(f.sign(v[0] * v[0] + v[1] * v[1] - scale * scale) == {0}, rule, a.where, f"{what}: the arrow has the length given", "")
                    ok = True
                    for i in (0, 1):
                        g = f.copy()
                        if g.assume(d[i], frozenset((1,))):
                            ok = ok and g.sign(v[i]) <= {0, 1} and g.sign(-v[i]) != {0}
                    self.add(ok, rule, a.where, f"{what}: the arrow points along the edge", f"{v[0]}, {v[1]}")
                self.add(a.canvas == sc.canvas, "on its own canvas", a.where, f"{what}: drawn on the visualizer's canvas", a.canvas)
                if opts:
                    self.add((a.look.get("props") or {}).get("alpha") == K(5), rule, a.where, f"{what}: options are passed to the arrows", a.look)
        self.add(not left, rule, left[0].where if left else w, f"{what}: nothing else is drawn", left)

    def sweep(self):
        sc = Scene(self.p)
        sc.visualizer()
        self.interps.append(sc.k.I)
        for sw, kw, l in self.sweeps(sc):
            out, exc = sc.call("plot_sweep_line", **kw)
            w = self.outcome(sc, "plot_sweep_line", f"sweep line, {sw}", out, exc)
            y = R.const(0) if l == "0" else A(l)
            for st, v in out:
                got = st.ghost.get("draw", ())
                if [p.kind for p in got] == ["axhline"]:
                    self.add(same(st, got[0].nums, (y,)), "the sweep line is drawn", w, f"sweep line, {sw}: at its position", got)
                    continue
                self.compare(sc, st, w, "the sweep line is drawn", f"sweep line, {sw}",
                             [("segment", (sc.extent(st, "min_x") - sc.off, y, sc.extent(st, "max_x") + sc.off, y))])

    def events(self):
        sc = Scene(self.p)
        sc.visualizer()
        self.interps.append(sc.k.I)
        k = sc.k
        other = k.mk("CircleEvent", center=k.mk("Coordinate", num("n.x"), num("n.y")), radius=num("n.r"), arc_node=NONE, point_triple=Tup((sc.s2, sc.s1, sc.a)))
        k.put(other, "is_valid", K(False))
        good, bad = self.const("VALID_CIRCLE"), self.const("INVALID_CIRCLE")
        for current in (sc.circ, sc.site_event, NONE):
            k.put(sc.V, "event", current)
            for how, args, ev in (("by default", (), current), ("None given", (NONE,), current), ("another given", (other,), other), ("a site event given", (sc.site_event,), sc.site_event)):
                for tri in (None, True, False):
                    out, exc = sc.call("plot_event", *args, **({} if tri is None else {"triangles": K(tri)}))
                    what = f"event, {how}, {'' if tri is None else f'triangles={tri}, '}current event {k.st.obj(current).cls.name if current != NONE else None}"
                    w = self.outcome(sc, "plot_event", what, out, exc)
                    for st, v in out:
                        want = []
                        hollow = lambda v: v == K(False) or v is None
                        if ev in (sc.circ, other):
                            n, t, col = ("m", ("s1", "s2", "c"), good) if ev == sc.circ else ("n", ("s2", "s1", "a"), bad)
                            want.append(("circle", (A(n + ".x"), A(n + ".y"), A(n + ".r")), {"fill": hollow, "color": col}))
                            want += [("marker", sc.pos(x)) for x in t]
                            if tri:
                                want.append(("polygon", tuple(c for x in t for c in sc.pos(x)), {"fill": hollow}))
                        self.compare(sc, st, w, "the event is drawn", what, want)

    def arcs(self):
        for none in (False, True):
            sc = Scene(self.p)
            if none:
                sc.k.put(sc.V, "sweep_line", NONE)
            sc.visualizer()
            self.interps.append(sc.k.I)
            s3 = sc.k.mk("Point", num("s3.x"), num("s3.y"))
            sc.k.put(s3, "name", K(4))
            arc3 = sc.k.mk("Arc", s3)
            sweeps = [("no sweep line", {}, None)] if none else self.sweeps(sc)
            for how, args, els in self.lists(sc, (sc.arc1, sc.arc2), (arc3,)):
                for sw, kw0, l in sweeps:
                    for pl, lab in ((None, None), (True, False), (False, True), (True, True)):
                        if pl is not None and (sw, how) not in (("by default", "by default"), ("another given", "others given"), ("another given", "by default")):
                            continue
                        kw = dict(kw0)
                        if pl is not None:
                            kw["plot_arcs"], kw["show_labels"] = K(pl), K(lab)
                        out, exc = sc.call("plot_arcs", *args, **kw)
                        what = f"arcs, {how}, sweep line {sw}, plot_arcs={pl}, show_labels={lab}"
                        w = self.outcome(sc, "plot_arcs", what, out, exc)
                        for st, v in out:
                            y = sc.extent(st, "max_y") + sc.off if l is None else R.const(0) if l == "0" else A(l)
                            arcs = [(n, t) for n, x, t in (("s1", sc.arc1, 0), ("s2", sc.arc2, 7), ("s3", arc3, 4)) if x in els]
                            self.beach(sc, st, w, what, arcs, y, bool(pl), lab is not False)

    def beach(self, sc, st, w, what, arcs, l, pl, lab):
        rule = "the beach line is drawn"
        g = A("grid")
        got = list(st.ghost.get("draw", ()))
        ev = st.ghost.get("events", ())
        flat = [n for n, t in arcs if st.facts.sign(A(n + ".y") - l) == {0}]
        curves = {}
        for n, t in arcs:
            if n not in flat:
                x, y = sc.pos(n)
                curves[n] = ((g - x) * (g - x) + y * y - l * l) / ((y - l) * R.const(2))
        f = st.facts

        def is_curve(p, n):
            return p.kind == "curve" and same(st, p.nums, (g, curves[n]))
        bottom = [p for p in got if p.kind == "curve" and same(st, p.nums, (g, A("bottom")))]
        own = [(p, [n for n in curves if is_curve(p, n)]) for p in got if p.kind == "curve" and p not in bottom]
        if len(curves) == 1 and not bottom:
            pass
        for p, ns in own:
            self.add(ns, rule, p.where, f"{what}: curves are parabolas of the arcs at the sweep line", p)
            if ns and not pl and bottom:
                self.add(False, rule, p.where, f"{what}: arcs are drawn only when asked for", p)
        if pl:
            for n in curves:
                self.add(any(n in ns for _, ns in own), rule, w, f"{what}: each arc is drawn", n)
            for n in flat:
                self.add(any(p.kind == "axvline" and same(st, p.nums, (A(n + ".x"),)) or p.kind == "segment" and same(st, (p.nums[0], p.nums[2]), (A(n + ".x"),) * 2) for p in got),
                         rule, w, f"{what}: an arc at the sweep line is a vertical line", n)
        else:
            bad = [p for p in got if p.kind in ("axvline", "segment")]
            self.add(not bad, rule, bad[0].where if bad else w, f"{what}: arcs are drawn only when asked for", bad)
        self.add(bool(bottom) == bool(curves), rule, w, f"{what}: the beach line is drawn when there are arcs", got)
        if curves:
            env = [e for e in ev if e[0] == "envelope"]
            ok = env and "min" in env[-1][1] and len(env[-1][2]) == len(curves) and all(any(same(st, (r,), (c,)) for r in env[-1][2]) for c in curves.values())
            self.add(ok, rule, w, f"{what}: the beach line is the lowest of the arcs", env)
            self.add(env and env[-1][3] in (K(0), None), rule, w, f"{what}: the beach line is the lowest arc at each position", env)
            grid = [e for e in ev if e[0] == "grid"]
            ok = grid and same(st, tuple(grid[-1][1]), (sc.extent(st, "min_x") - sc.off, sc.extent(st, "max_x") + sc.off))
            self.add(ok, rule, w, f"{what}: the beach line spans the canvas", grid)
        labels = [p for p in got if p.kind == "label"]
        low = [e for e in ev if e[0] == "lowest"]
        if low:
            self.add(low[-1][2] == K(0), rule, w, f"{what}: the label of an arc is where that arc is the lowest", low[-1][2])
        left = list(labels)
        for i, r in enumerate(low[-1][1] if low and lab else ()):
            n = next((n for n in curves if same(st, (r,), (curves[n],))), None)
            if n is None:
                self.add(False, rule, w, f"{what}: labels are drawn on arcs", r)
                continue
            x, y = sc.pos(n)
            h = A(f"grid[{i}]")
            at = (h, ((h - x) * (h - x) + y * y - l * l) / ((y - l) * R.const(2)))
            hit = [p for p in labels if same(st, p.nums, at)]
            left = [p for p in left if p not in hit]
            t = dict(arcs)[n]
            self.add(hit and all(p.look["text"] == K(str(t)) for p in hit), rule, hit[0].where if hit else w,
                     f"{what}: each arc of the beach line is labelled with its site where it is the lowest", labels)
        if lab:
            self.add(bool(low) == bool(curves), rule, w, f"{what}: labels are drawn when asked for", ev)
            self.add(not left, rule, left[0].where if left else w, f"{what}: a label names the arc it is drawn on", left)
        if not lab:
            self.add(not labels, rule, labels[0].where if labels else w, f"{what}: labels are drawn only when asked for", labels)
        for p in got:
            self.add(p.canvas == sc.canvas, "on its own canvas", p.where, f"{what}: drawn on the visualizer's canvas", p.canvas)

    # ------------------------------------------------------------ all parts together
    def parts(self, sc):
        for m, part in PART.items():
            f = self.vis.method(m)
            if f is None:
                raise Unsupported(f"anchor Visualizer.{m} not found")
            sc.cl.parts[id(f.node)] = part

    def all_(self):
        f = self.vis.method("plot_all")
        if f is None:
            raise Unsupported("anchor Visualizer.plot_all not found")
        pars = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
        need = set(PART.values()) | {v for d in PASSED.values() for v in d.values()}
        self.add(not need - pars, "options exist", where_fn(f), "plot_all has an option for each part", sorted(need - pars))
        if need - pars:
            return
        values = ["edge_labels", "site_labels", "triangles", "arcs", "arc_labels"]
        runs = [(None, {p: Opq("flag." + p) for p in PART.values()}, dict({v: K(False) for v in values}, scale=num("sc")))]
        runs.append(("all options", {p: Opq("flag." + p) for p in PART.values()}, dict({v: K(True) for v in values}, scale=num("sc"))))
        for v in values:
            runs.append((v, {p: K(True) for p in PART.values()}, dict({u: K(u == v) for u in values}, scale=num("sc"))))
        runs.append(("all", {p: K(True) for p in PART.values()}, dict({u: K(True) for u in values}, scale=K(3))))
        for name, flags, vals in runs:
            sc = Scene(self.p)
            sc.visualizer()
            self.parts(sc)
            self.interps.append(sc.k.I)
            out, exc = sc.call("plot_all", **flags, **vals)
            what = "plot_all" if name is None else f"plot_all with {name}"
            w = self.outcome(sc, "plot_all", what, out, exc)
            for st, v in out:
                on = {p: (st.truth.get(("truth", f.key)) if isinstance(f, Opq) else f.v) for p, f in flags.items()}
                drawn = [e for e in st.ghost.get("events", ()) if e[0] == "part"]
                self.limits(sc, st, w, what)
                for m, p in PART.items():
                    n = [e for e in drawn if e[1] == p]
                    self.add(bool(n) == bool(on[p]) and len(n) <= 1, "parts are drawn exactly when asked for", n[0][3] if n else w,
                             f"{what}: {p} is drawn {'once' if on[p] else 'not at all'} when {p}={bool(on[p])}", f"{len(n)} times")
                    for e in n:
                        self.add(e[2].get("self") == sc.vis or sc.vis in e[2].values(), "parts are drawn exactly when asked for", e[3], f"{what}: {p} is drawn by the same visualizer", "")
                        for par, opt in PASSED.get(m, {}).items():
                            self.add(par in e[2] and self.eqv(st, e[2][par], vals[opt]), "options reach their part", e[3], f"{what}: {opt} is passed to {p}", f"{e[2].get(par)} instead of {vals[opt]}")
                        for par, val in e[2].items():
                            if par in ("vertices", "points", "edges", "sweep_line", "event", "arcs"):
                                self.add(val == NONE, "options reach their part", e[3], f"{what}: {p} draws the diagram's own", f"{par}={val}")

    @staticmethod
    def eqv(st, a, b):
        if a == b:
            return True
        x, y = r_of(a), r_of(b)
        return x is not None and y is not None and st.facts.sign(x - y) == {0}

    # ------------------------------------------------------------ observers
    def dict_items(self, k, v):
        return dict((a.v, b) for a, b in k.st.get(v, "items") or ())

    def presets(self, k):
        out = {}
        for n in ("construction", "clipping", "final"):
            v = attr(k.I, k.st, Cls(self.p.cls("Presets")), n)
            out[n] = self.dict_items(k, v)
        return out

    def update(self, sc, obs, st, subject, msg, **kw):
        f = sc.k.method(obs, "update")
        st = st.copy()
        st.ghost.pop("draw", None)
        st.ghost.pop("events", None)
        st.ghost["observer"] = obs
        return sc.k.I.run(st, Bound(Fn(f), obs), [subject, K(EnumVal("Message", msg))], kw)

    def voronoi_observer(self):
        w = self.w("VoronoiObserver", "update")
        f = self.vis.method("plot_all")
        names = [a.arg for a in f.node.args.args]
        defaults = dict(zip(names[len(names) - len(f.node.args.defaults):], f.node.args.defaults))
        when = {"STEP_FINISHED": ("visualize_steps", "construction"), "SWEEP_FINISHED": ("visualize_before_clipping", "clipping"),
                "VORONOI_FINISHED": ("visualize_result", "final"), "DEBUG": (None, None)}
        settings = [None, {}, {"site_labels": K(True), "arc_labels": K(True)}, {"polygon": K(False), "events": K(False), "vertices": K(False), "scale": num("sc")}]
        for flags in ((True, True, True), (True, False, False), (False, True, False), (False, False, True), (False, False, False)):
            for opts in settings if all(flags) else settings[:1]:
                for cb in (True, False) if all(flags) and opts is None else (True,):
                    sc = Scene(self.p)
                    k = sc.k
                    self.parts(sc)
                    self.interps.append(k.I)
                    k.put(sc.V, "sweep_line", k.get(sc.circ, "yd"))
                    pre = self.presets(k)
                    d = NONE if opts is None else k.st.new(Obj("dict", fields={"items": tuple((K(a), b) for a, b in opts.items())}), "d")
                    kw = dict(visualize_steps=K(flags[0]), visualize_before_clipping=K(flags[1]), visualize_result=K(flags[2]),
                              figsize=Tup((num("fw"), num("fh"))), canvas_offset=num("off"), settings=d)
                    if cb:
                        kw["callback"] = Opq("callback", "obj")
                    obs = k.mk("VoronoiObserver", **kw)
                    sc.off = A("off")
                    on = dict(zip(("visualize_steps", "visualize_before_clipping", "visualize_result", None), flags + (False,)))
                    name = ", ".join(f"{a[10:]}={b}" for a, b in on.items() if a)
                    states = [(k.st.copy(), [])]
                    for msg in ("STEP_FINISHED", "STEP_FINISHED", "DEBUG", "SWEEP_FINISHED", "VORONOI_FINISHED"):
                        flag, preset = when[msg]
                        nxt = []
                        for st, seen in states:
                            out, exc = self.update(sc, obs, st, sc.V, msg)
                            what = f"{msg} with {name}, settings {'none' if opts is None else sorted(opts)}"
                            for x, e in exc:
                                self.add(False, "no exception", w, what, e)
                            self.paths += len(out)
                            for x, v in out[:4]:
                                want = None
                                if on[flag]:
                                    want = {a: (K(b.value) if isinstance(b, ast.Constant) else None) for a, b in defaults.items()}
                                    want.update(pre[preset])
                                    want.update(opts or {})
                                self.observed(sc, x, w, what, obs, want, seen, msg, cb)
                                nxt.append((x, seen + ([msg] if on[flag] else [])))
                        states = nxt[:4]
                    for st, _ in states:
                        k.st = st
                        self.add(self.presets(k) == pre, "settings", w, "the presets are left as they were", "")
                    if opts is not None:
                        for st, _ in states:
                            now = dict((a.v, b) for a, b in st.get(d, "items") or ())
                            self.add(now == opts, "settings", w, "the caller's settings are left as they were", now)
        # other senders are ignored
        sc = Scene(self.p)
        self.parts(sc)
        obs = sc.k.mk("VoronoiObserver", callback=Opq("callback", "obj"))
        for msg in when:
            out, exc = self.update(sc, obs, sc.k.st, sc.region, msg)
            for x, e in exc:
                self.add(False, "no exception", w, f"{msg} of a bounding region", e)
            for st, v in out:
                self.observed(sc, st, w, f"{msg} of a bounding region", obs, None, [], msg, True)

    def observed(self, sc, st, w, what, obs, want, seen, msg, cb):
        ev = list(st.ghost.get("events", ()))
        figs = [e for e in ev if e[0] == "figure"]
        calls = [i for i, e in enumerate(ev) if e[0] == ("callback" if cb else "show")]
        parts = [e for e in ev if e[0] == "part"]
        n = attr(sc.k.I, st, obs, "n_messages")
        lst = attr(sc.k.I, st, obs, "messages")
        msgs = [m.v.name for m in sc.k.segs(st, lst) if isinstance(m, K) and isinstance(m.v, EnumVal)]
        rule = "an observer draws exactly the steps it is asked for"
        if want is None:
            self.add(not figs and not calls and not parts, rule, w, f"{what}: nothing is drawn", ev)
            self.add(n == K(len(seen)) and msgs == seen, "messages are counted", w, f"{what}: nothing is counted", (n, msgs))
            return
        self.add(len(calls) == 1, rule, w, f"{what}: the figure is handed out once", ev)
        self.add(len(figs) == 1 and figs[0][2] == Tup((num("fw"), num("fh"))), "figure size", w, f"{what}: the figure has the size given", figs)
        got = {e[1] for e in parts}
        exp = {p for p in PART.values() if want.get(p) is not None and want[p].v}
        self.add(got == exp, "settings", w, f"{what}: the parts drawn are those of the preset and the settings", f"{sorted(got)} instead of {sorted(exp)}")
        for e in parts:
            m = next(m for m, p in PART.items() if p == e[1])
            for par, opt in PASSED.get(m, {}).items():
                if want.get(opt) is not None:
                    self.add(self.eqv(st, e[2].get(par), want[opt]), "settings", e[3], f"{what}: {opt} reaches {e[1]}", f"{e[2].get(par)} instead of {want[opt]}")
        if figs and calls:
            sc.canvas = "ax" + figs[-1][1][3:]
            pre = st.copy()
            pre.ghost["events"] = tuple(ev[:calls[0]])
            self.limits(sc, pre, w, what)
            if cb:
                a = ev[calls[0]][2]
                self.add(len(a) == 2 and a[0] == obs and a[1] in (Opq(f"{sc.canvas}.figure"), Opq(figs[-1][1])), "the figure handed out", w, f"{what}: the callback is given the observer and the figure", a)
                self.add(ev[calls[0]][4] == K(len(seen)), "messages are counted", w, f"{what}: the callback sees the number of figures before", ev[calls[0]][4])
        self.add(n == K(len(seen) + 1) and msgs == seen + [msg], "messages are counted", w, f"{what}: the message is counted once", (n, msgs))

    def tree_observer(self):
        w = self.w("TreeObserver", "update")
        vis = self.p.cls("Node").method("visualize")
        if vis is None:
            raise Unsupported("anchor Node.visualize not found")
        for steps, result in itertools.product((True, False), (True, False)):
            for text in (True, False):
                for cb in (True, False):
                    sc = Scene(self.p)
                    k = sc.k
                    self.interps.append(k.I)
                    base = sc.cl.intercept

                    def intercept(I, st, fv, args, kwargs, node):
                        f, first = region.callee(fv)
                        if f is not None and f.node is vis.node:
                            a = region.arguments(f, first, args, kwargs)
                            return [(st, Opq(f"text.{a[0].oid}", "str"))]
                        return base(I, st, fv, args, kwargs, node)
                    sc.cl.intercept = intercept
                    leaves = [k.mk("LeafNode", a) for a in (sc.arc1, sc.arc2, k.mk("Arc", sc.s1))]
                    inner = k.mk("InternalNode", sc.bp)
                    root = k.mk("InternalNode", k.mk("Breakpoint", Tup((sc.s2, sc.s1))))
                    for p, l, r in ((inner, leaves[0], leaves[1]), (root, inner, leaves[2])):
                        k.put(p, "left", l)
                        k.put(p, "right", r)
                    k.put(sc.V, "status_tree", root)
                    kw = dict(visualize_steps=K(steps), visualize_result=K(result), text_based=K(text))
                    if cb:
                        kw["callback"] = Opq("callback", "obj")
                    obs = k.mk("TreeObserver", **kw)
                    states = [(k.st.copy(), [])]
                    for msg in ("STEP_FINISHED", "DEBUG", "STEP_FINISHED", "SWEEP_FINISHED", "VORONOI_FINISHED"):
                        on = {"STEP_FINISHED": steps, "VORONOI_FINISHED": False if not result else (None if steps else True)}.get(msg, False)
                        nxt = []
                        what = f"{msg} with steps={steps}, result={result}, {'text' if text else 'graph'}"
                        for st, seen in states:
                            out, exc = self.update(sc, obs, st, sc.V, msg)
                            for x, e in exc:
                                self.add(False, "no exception", w, what, e)
                            self.paths += len(out)
                            for x, v in out[:4]:
                                self.tree_shown(sc, x, w, what, obs, on, seen, msg, text, cb, root)
                                nxt.append((x, seen + ([msg] if on else [])))
                        states = nxt[:4]

    def tree_text(self):
        """the tree as text: a line for each node, from right to left, indented by its depth; and as a graph"""
        vis = self.p.cls("Node").method("visualize")
        if vis is None:
            raise Unsupported("anchor Node.visualize not found")
        self.unread = 0
        L = lambda n: (None, n, None)
        for n, shape in enumerate((L(5), (L(3), 5, None), (None, 5, L(8)), (L(3), 5, L(8)), ((L(1), 3, L(4)), 5, L(8)), (None, 5, (L(6), 8, None)),
                                   ((None, 2, (L(3), 4, None)), 5, L(9)))):
            sc = Scene(self.p)
            k = sc.k
            self.interps.append(k.I)
            rows, links = [], []

            def build(t, depth, parent):
                if t is None:
                    return NONE, 0
                x = k.mk("Node", K(t[1]))
                at = len(rows)
                l, a = build(t[0], depth + 1, x)
                left = rows[at:]
                del rows[at:]
                r, b = build(t[2], depth + 1, x)
                for side, c in (("left", l), ("right", r)):
                    if c != NONE:
                        k.put(x, side, c)
                h = 1 + max(a, b)
                rows.append((depth, f"{t[1]}({h})"))
                rows.extend(left)
                return x, h
            root, _ = build(shape, 0, None)
            out, exc = k.I.run(k.st.copy(), Bound(Fn(vis), root), [])
            w, what = where_fn(vis), f"a tree of {len(rows)} nodes, shape {n}"
            self.add(not exc and out, "no exception", w, what, exc)
            for st, v in out:
                self.paths += 1
                if not (isinstance(v, K) and isinstance(v.v, str)):
                    self.unread += 1       # put together in a way that is not followed: no verdict on the text
                    continue
                lines = [t for t in v.v.split("\n") if t.strip()]
                ind = [len(t) - len(t.lstrip()) for t in lines]
                ok = [t.strip() for t in lines] == [t for _, t in rows]
                ok = ok and all((ind[i] < ind[j]) == (rows[i][0] < rows[j][0]) for i in range(len(rows)) for j in range(len(rows)))
                self.add(ok, "the tree shown", w, f"{what}: a line for each node, from right to left, indented by its depth", v.v)

    def tree_shown(self, sc, st, w, what, obs, on, seen, msg, text, cb, root):
        rule = "an observer draws exactly the steps it is asked for"
        ev = list(st.ghost.get("events", ()))
        k = sc.k
        if text:
            shown = [e for e in ev if e[0] == ("callback" if cb else "print")]
        elif cb:
            shown = [e for e in ev if e[0] == "callback"]
        else:
            shown = [e for e in ev if e[0] in ("dot.render", "dot.view")]
        if on is None:
            return
        self.add(len(shown) == (1 if on else 0), rule, w, f"{what}: the tree is shown {'once' if on else 'not at all'}", ev)
        n, lst = attr(k.I, st, obs, "n_messages"), attr(k.I, st, obs, "messages")
        msgs = [m.v.name for m in k.segs(st, lst) if isinstance(m, K) and isinstance(m.v, EnumVal)]
        exp = seen + ([msg] if on else [])
        self.add(n == K(len(exp)) and msgs == exp, "messages are counted", w, f"{what}: a message is counted when its tree is shown", (n, msgs))
        if not on or len(shown) != 1:
            return
        if cb:
            self.add(shown[0][4] == K(len(seen)), "messages are counted", w, f"{what}: the callback sees the number of trees before", shown[0][4])
        if text:
            args = shown[0][2] if cb else shown[0][1]
            self.add(Opq(f"text.{root.oid}") in args, "the tree shown", w, f"{what}: the text of the tree is handed out", args)
            return
        if cb:
            a = shown[0][2]
            ok = len(a) == 2 and a[0] == obs and isinstance(a[1], Opq) and str(a[1].key).startswith("dot")
            self.add(ok, "the tree shown", w, f"{what}: the callback is given the observer and the graph", a)
            dot = a[1].key if ok else None
        else:
            dot = shown[0][1]
        nodes, links = {}, []
        for e in ev[:ev.index(shown[0])]:
            if e[0] in ("dot.node", "dot.edge") and e[1] == dot:
                par = ("name", "label") if e[0] == "dot.node" else ("tail_name", "head_name")
                a = (list(e[2]) + [e[3].get(p) for p in par[len(e[2]):]])[:2]
                if e[0] == "dot.node":
                    nodes[str(a[0])] = a[1]
                else:
                    links.append(tuple(str(x) for x in a))

        def walk(st, v):
            if v == NONE:
                return None
            lab = k.I.run(st.copy(), Bound(Fn(k.method(v, "get_label")), v), [])[0]
            return str(lab[0][1]), walk(st, k.get(v, "left", st)), walk(st, k.get(v, "right", st))

        def shape(i):
            ch = [h for t, h in links if t == i]
            sub = [shape(c) for c in ch]
            return (self.norm(nodes.get(i)),) + tuple(sub + [None] * (2 - len(sub)))
        roots = [i for i in nodes if i not in {h for _, h in links}]
        want = walk(st, root)
        ok = len(roots) == 1 and len(nodes) == 5 and len(links) == 4 and self.norm_tree(shape(roots[0])) == self.norm_tree(want)
        self.add(ok, "the tree shown", w, f"{what}: the graph has the tree's nodes, labels and links", (nodes, links))

    @staticmethod
    def norm(v):
        return str(v)

    @classmethod
    def norm_tree(cls, t):
        return None if t is None else (cls.norm(t[0]),) + tuple(cls.norm_tree(x) for x in t[1:])

    def debug_observer(self):
        w = self.w("DebugObserver", "update")
        for cb in (True, False):
            sc = Scene(self.p)
            self.interps.append(sc.k.I)
            obs = sc.k.mk("DebugObserver", **({"callback": Opq("callback", "obj")} if cb else {}))
            for msg in ("STEP_FINISHED", "SWEEP_FINISHED", "VORONOI_FINISHED", "DEBUG"):
                out, exc = self.update(sc, obs, sc.k.st, sc.V, msg, **({"payload": Opq("payload", "str")} if msg == "DEBUG" else {}))
                for x, e in exc:
                    self.add(False, "no exception", w, msg, e)
                for st, v in out:
                    got = [e for e in st.ghost.get("events", ()) if e[0] in ("callback", "print")]
                    args = [e[2] if e[0] == "callback" else e[1] for e in got]
                    self.add(args == ([(Opq("payload"),)] if msg == "DEBUG" else []), "debug messages", w, f"{msg}: {'the payload is passed on once' if msg == 'DEBUG' else 'nothing is passed on'}", got)
                    self.add(all(e[0] == ("callback" if cb else "print") for e in got), "debug messages", w, f"{msg}: passed to the callback given", got)
