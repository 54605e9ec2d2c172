"""C16 - coordinates are kept and computed in decimal arithmetic."""
from ..geom import *
from .. import beach, edges, loop, region

RULE = ("Representation (taint) analysis of the numeric values flowing through coordinates, bounding regions, circle "
        "events, breakpoints and vertices: each must be a Decimal that was not rounded and did not pass through a binary "
        "float on the way.")


def run(prog, rep):
    k = k_coords(prog)
    for cls, kind, g, v, want in k.rows:
        if want is None:
            rep.ob(v == NONE, "unknown coordinate", k.where, f"{cls}: a coordinate that is not given stays unknown ({g})", v)
            continue
        n = tonum(v)
        if isinstance(v, Opq):
            raise Unsupported(f"{cls}.{g} of {kind} input: {v}")
        if n is None:
            rep.ob(False, "value kept", k.where, f"{cls}.{g} of {kind} input is a number", v)
            continue
        rep.ob(n.r == want, "value kept", k.where, f"{cls}.{g} returns the {kind} it was given", f"{n.r} for {want}")
        if "d" in g or "assigned" in g:
            rep.ob(as_given(v), "exact representation", k.where, f"{cls}.{g} of {kind} input is the decimal as written", v)
        else:
            rep.ob(n.kind == "float", "float view", k.where, f"{cls}.{g} is the float view", v)
    rep.interp(k.I, len(k.rows))

    def values(k, names):
        for st, v in k.out:
            if isinstance(v, K):
                continue
            for path in names:
                o = v
                for a in path.split("."):
                    o = attr(k.I, st, o, a)
                rep.ob(exact(o), "exact arithmetic", k.where, f"{k.name}: {path} is computed in decimals", o)
        rep.interp(k.I, len(k.out))
    kc = k_circle(prog)
    values(kc, ["center.xd", "center.yd", "radius", "xd", "yd"])
    kb = [k_breakpoint(prog, True), k_breakpoint(prog, False)]
    for b in kb:
        values(b, ["xd", "yd"])
    for k in [kc, k_intersects(prog), k_inside(prog), k_inside_circle(prog), k_cleanup_cmp(prog)] + kb:
        for where, r, a, b in k.cl.cmps:
            rep.ob(exact(a) and exact(b), "exact comparison", where,
                   f"comparison in {where.split(' in ')[-1]} uses unrounded decimals", f"{a} {b}")
        for w in k.cl.mixed:
            rep.ob(False, "exact arithmetic", w, "decimals are not mixed with floats", "TypeError at run time")
    k = k_sub(prog)
    for cls, m, out, exc in k.rows:
        for st, v in out:
            for a in ("xd", "yd"):
                o = attr(k.I, st, v, a) if isinstance(v, Ref) else None
                rep.ob(o is not None and exact(o), "exact arithmetic", where_fn(m), f"{a} of the difference of two {cls}s is computed in decimals", o)
    rep.interp(k.I, len(k.rows))
    beach.run(prog, rep, "C16")
    loop.run(prog, rep, "C16")
    # bounding regions
    I, cl, st = setup(prog)
    for kind in ("float", "int", "dec"):
        s2 = st.copy()
        bc = make(I, s2, "BoundingCircle", num("m.x", kind), num("m.y", kind), num("r", kind))[1]
        w = where_fn(prog.cls("BoundingCircle").method("__init__"))
        for a in ("xd", "yd", "radius", "min_x", "max_x", "min_y", "max_y"):
            v = attr(I, s2, bc, a)
            rep.ob((as_given if a in ("xd", "yd", "radius") else exact)(v), "exact representation", w, f"BoundingCircle.{a} of {kind} input is an exact decimal", v)
        for a in ("xd", "yd"):
            v = attr(I, s2, attr(I, s2, bc, "center"), a)
            rep.ob(as_given(v), "exact representation", w, f"{a} of a BoundingCircle's centre of {kind} input is the decimal given", v)
        k = edges.Kit(prog, region.RegionClient(prog))
        w = where_fn(prog.cls("Polygon").method("__init__"))
        outs, exc = k.I.run(k.st, Cls(prog.cls("Polygon")), [k.st.mklist([Tup((num(c + ".x", kind), num(c + ".y", kind))) for c in "pqr"])])
        given = {A(f"{c}.{a}") for c in "pqr" for a in "xy"}
        for s3, pg in outs:
            for a in ("min_x", "max_x", "min_y", "max_y"):
                v = k.get(pg, a, s3)
                rep.ob(exact(v), "exact representation", w, f"Polygon.{a} of {kind} input is an exact decimal", v)
            for name, what in (("points", "corner"), ("polygon_vertices", "corner vertex")):
                segs = k.segs(s3, k.get(pg, name, s3))
                rep.ob(len(segs) == 3, "exact representation", w, f"a {what} is made of each corner", segs)
                for p in segs:
                    for a in ("xd", "yd"):
                        v = k.get(p, a, s3)
                        n = tonum(v)
                        rep.ob(n is not None and as_given(v) and n.r in given, "exact representation", w, f"{what} {a} of {kind} input is the exact decimal given", v)
            f = prog.cls("Polygon").method("finish_edges")
            s5 = s3.copy()
            again, x2 = k.I.run(s5, Bound(Fn(f), pg), [s5.mklist([])])
            for s4, _ in again:
                for p in k.segs(s4, k.get(pg, "polygon_vertices", s4)):
                    for a in ("xd", "yd"):
                        v = k.get(p, a, s4)
                        n = tonum(v)
                        rep.ob(n is not None and as_given(v) and n.r in given, "exact representation", where_fn(f),
                               f"a corner vertex's {a} of {kind} input is the exact decimal given when clipping begins", v)
            for a in ("xd", "yd"):
                v = k.get(k.get(pg, "center", s3), a, s3)
                rep.ob(exact(v), "exact representation", w, f"{a} of a Polygon's centre of {kind} input is an exact decimal", v)
        rep.interp(k.I, len(outs))
    rep.interp(I, 3)
    # crossings with a circle, and the vertices made of them
    k = k_cut_circle(prog)
    for st, v in k.out:
        if isinstance(v, Tup):
            for p in v.items:
                for a in ("xd", "yd"):
                    if p != NONE:
                        rep.ob(exact(attr(k.I, st, p, a)), "exact arithmetic", k.where, f"{a} of a crossing with a circle is computed in decimals", attr(k.I, st, p, a))
    rep.interp(k.I, len(k.out))
    E = edges.Edges(prog, rep.tier)
    clip = region.Clipping(E, "BoundingCircle")
    for kinds in (("inside", "vertex"), ("inside", "breakpoint"), ("vertex", "vertex")):
        clip.one("x", kinds, {0: "on", 1: "past"} if kinds[0] == "inside" else {0: "on", 1: "on"}, False)
    for props, ok, rule, where, what, detail in E.obs:
        if "C16" in props:
            rep.ob(ok, rule, where, what, detail)
    for I in E.interps:
        rep.interp(I, 1)
    rep.assume("a float stands for the decimal number it is written as", "Decimal operations at the context's precision "
               "are treated as exact")
