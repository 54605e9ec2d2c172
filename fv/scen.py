"""User-level scenarios for the ownership analysis."""
from .own import Own, Entry, EXT
from .model import ClassInfo, FuncInfo, Unsupported

OBS = ("R", "observer")
CB = ("R", "callback")
DIAG = ("R", "diagram")
ANYARG = ("R", "argument")
POLYS = ("Polygon", "BoundingBox", "BoundingCircle")


class Run:
    """construct a bounding region and a diagram, attach an observer, create the diagram"""

    def __init__(self, prog, poly, k=2):
        self.O = O = Own(prog, opaque={OBS, CB})
        O.K = k
        self.prog, self.poly_cls = prog, poly
        self.v = self.poly = None
        self.caller = set()
        self.run_phase = False
        O.root(self.root)
        self.passes = O.solve()
        self.pre = set(O.info)          # everything that exists before a run
        self.pre_writes = dict(O.writes)
        self.run_phase = True
        O.tracked = {l for l in self.pre if O.info[l]["kind"] == "inst"}
        self.passes += O.solve()

    def root(self, O):
        E = Entry(O)
        pair = E.lst((), "tuple")
        tuples = E.lst((pair,))
        pts = E.lst((pair,))
        self.caller = {pair, tuples, pts}
        self.pts = pts
        c = self.prog.cls(self.poly_cls)
        if self.poly_cls == "Polygon":
            self.poly = E.new(c, {tuples})
        else:
            self.poly = E.new(c)
        self.v = E.new("Algorithm", {self.poly})
        att = self.prog.cls("Algorithm").method("attach_observer")
        E.call(att, {self.v}, {OBS})
        if self.run_phase:
            w = dict(O.writes)
            O.writes = {}
            O.early_reads = {}
            f = self.prog.cls("Algorithm").method("create_diagram")
            if f is None:
                raise Unsupported("create_diagram not found")
            E.call(f, {self.v}, {pts})
            self.run_writes = O.writes
            self.run_early = dict(O.early_reads)
            O.writes = {**w, **O.writes}
            self.queries = {}
            for name in ("vertices", "arcs"):
                g = self.prog.cls("Algorithm").getter(name)
                if g is not None:
                    self.queries[("Algorithm", name, g)] = E.call(g, {self.v})
            pts_ = O.content(O.heap.get((self.v, "sites"), set()))
            for name in ("borders", "vertices"):
                m = self.prog.cls("Point").method(name)
                if m is not None and pts_:
                    self.queries[("Point", name, m)] = E.call(m, pts_)
            m = c.method("get_coordinates")
            if m is not None and self.poly_cls != "BoundingCircle":
                self.queries[(self.poly_cls, "get_coordinates", m)] = E.call(m, {self.poly})


class Draw:
    """every observer and every drawing/query method applied to a diagram"""

    def __init__(self, prog):
        self.O = O = Own(prog, opaque={OBS, CB})
        O.K = 1
        self.prog = prog
        self.entries = set()
        O.root(self.root)
        self.passes = O.solve()

    def root(self, O):
        E = Entry(O, "draw")
        p = self.prog
        own = E.lst({CB}, "dict")
        lst = E.lst({DIAG})
        self.caller = {own, lst}
        obs = p.cls("Observer")
        for c in sorted(p.classes.values(), key=lambda c: c.name):
            if c is not obs and c.is_sub(obs):
                init = c.method("__init__")
                kw = {}
                if init is not None:
                    kw = {a.arg: {CB, own} for a in init.node.args.args[1:]}
                o = E.new(c, **kw)
                self.entries.add(c.method("update").qual)
                E.call(c.method("update"), {o}, {DIAG}, ())
                o = E.new(c)
                E.call(c.method("update"), {o}, {DIAG}, ())
        for cn in ("Visualizer", "TreeVisualizer"):
            if cn not in p.classes:
                continue
            c = p.classes[cn]
            for fill in (False, True):
                vis = E.new(c, {DIAG}) if cn == "Visualizer" else E.new(c)
                for name, f in sorted(c.methods.items()):
                    if name.startswith("__"):
                        continue
                    self.entries.add(f.qual)
                    a = f.node.args
                    pars = [x.arg for x in a.args]
                    args = [] if f.static else [{vis}]
                    pars = pars[len(args):]
                    nodef = len(pars) - len(a.defaults)
                    for i, _ in enumerate(pars):
                        if i < nodef or fill:
                            args.append({DIAG} if i < nodef else {DIAG, lst})
                    E.call(f, *args)
        # read-only queries of the diagram
        Q = {"Algorithm": ["vertices", "arcs", "get_observers"],
             "Point": ["area", "borders", "vertices", "x", "y", "xd", "yd", "xy", "__repr__"],
             "Vertex": ["__repr__", "xy"], "Coordinate": ["__repr__", "__sub__"],
             "HalfEdge": ["get_origin", "target", "twin", "__repr__"],
             "Breakpoint": ["get_intersection", "does_intersect", "__repr__"],
             "Arc": ["get_plot", "__repr__"], "CircleEvent": ["xd", "yd", "_get_triangle", "__repr__"],
             "SiteEvent": ["xd", "yd", "__repr__"],
             "Polygon": ["get_coordinates", "inside"], "BoundingCircle": ["inside"],
             "InternalNode": ["visualize", "get_label", "get_value", "is_leaf", "minimum", "maximum", "successor",
                              "predecessor", "__repr__", "left", "right", "is_left_child", "is_right_child"],
             "LeafNode": ["get_label", "get_value", "get_key", "__repr__"]}
        for cn, names in Q.items():
            c = p.classes.get(cn)
            for n in names if c else ():
                f = c.method(n) or c.getter(n)
                if f is not None and f.node.args.args:
                    self.entries.add(f.qual)
                    req = len(f.node.args.args) - len(f.node.args.defaults)
                    E.call(f, *([{DIAG}] * req))


class Everything:
    """every function of the package with unknown arguments (for effects on shared state only)"""

    def __init__(self, prog):
        self.O = O = Own(prog, opaque={OBS, CB, ANYARG})
        O.K = 1
        self.prog = prog
        O.root(self.root)
        self.passes = O.solve()

    def root(self, O):
        E = Entry(O, "all")
        for f in sorted(self.prog.functions(), key=lambda f: f.where):
            a = f.node.args
            n = len(a.posonlyargs + a.args)
            req = n - len(a.defaults)
            for fill in (req, n):
                args = [{ANYARG}] * fill
                if f.cls is not None and not f.static and args:
                    l = O.obj((("self", f.where)), "inst", f.cls)
                    if f.classm:
                        l = ("C", f.cls)
                    args[0] = {l}
                E.call(f, *args)
