"""C14 - geometry kernels compute what they are named after."""
from ..geom import *

RULE = ("Each geometric kernel is interpreted over symbolic coordinates (exact rational normal forms, square roots and "
        "angles as algebraic atoms); on every partition of the input space the result must satisfy the defining "
        "equations, and the partitions answering 'none' must be exactly those where no answer exists.")


def run(prog, rep):
    for k in (circle, collinear, breakpoint_, intersects, segment, clockwise, angle, distance, inside, inside_circle, line,
              cut_circle, plot, area, sub):
        k(prog, rep)
    rep.assume("numbers are reals: rounding of Decimal and float operations is not modelled",
               "a sweep line is never above a site whose arc is on the beach line",
               "polygon side tests are interpreted for polygons of three and four corners; the per-side condition does "
               "not depend on the number of sides")


def zero(st, r):
    return r is not None and st.facts.norm(r).is_zero()


def vals(I, st, v):
    """(x, y) of a coordinate-like result"""
    return r_of(attr(I, st, v, "xd")), r_of(attr(I, st, v, "yd"))


def fin(rep, k):
    rep.interp(k.I, len(k.out))
    rep.count("kernels")
    for st, e in k.exc:
        if e.name != "?":
            rep.ob(False, "no exception", e.where, f"{k.name} never fails", f"{e} with {st.facts.f}")
    rep.ob(True, "no exception", k.where, f"{k.name} never fails")


def circle(prog, rep):
    k = k_circle(prog)
    (ax, ay), (bx, by), (cx, cy) = xy("a"), xy("b"), xy("c")
    det = cross(bx - ax, by - ay, cx - ax, cy - ay)
    for st, v in k.out:
        if v == NONE or v == K(False):
            rep.ob(not (st.facts.sign(det) & N), "circle exists", k.where, "no circle event only when the three sites do "
                   "not turn clockwise", f"refused with facts {st.facts.f}")
            continue
        x, y = vals(k.I, st, attr(k.I, st, v, "center"))
        rad = r_of(attr(k.I, st, v, "radius"))
        yd = r_of(attr(k.I, st, v, "yd"))
        d = [(x - A(n + ".x")) ** 2 + (y - A(n + ".y")) ** 2 for n in "abc"]
        for i, n in enumerate(("second", "third")):
            rep.ob(zero(st, d[0] - d[i + 1]), "equidistant centre", k.where,
                   f"the centre is as far from the {n} site as from the first", f"centre ({x}, {y})")
        rep.ob(zero(st, rad * rad - d[0]) and not st.facts.sign(rad) & N, "radius", k.where,
               "the radius is the distance from the centre to a site", rad)
        rep.ob(zero(st, yd - (y - rad)), "event position", k.where, "the event lies at the bottom of the circle", yd)
        node = attr(k.I, st, v, "arc_pointer")
        rep.ob(node == k.nodes[1], "middle arc", k.where, "the event belongs to the middle arc", node)
        tri = attr(k.I, st, v, "point_triple")
        rep.ob(isinstance(tri, Tup) and tri.items == tuple(k.pts), "point triple", k.where,
               "the event names its three sites in order", tri)
    fin(rep, k)


def collinear(prog, rep):
    if prog.cls("CircleEvent").method("create_circle") is None:
        return
    k = k_collinear(prog)
    (ax, ay), (bx, by), (cx, cy) = xy("a"), xy("b"), xy("c")
    det = cross(bx - ax, by - ay, cx - ax, cy - ay)
    for st, v in k.out:
        if isinstance(v, K):
            rep.ob(st.facts.sign(det) == Z, "circle exists", k.where, "no circle only for collinear points",
                   f"{v} with {st.facts.f}")
        else:
            rep.ob(not st.facts.sign(det) & Z, "circle exists", k.where, "no circle for collinear points", st.facts.f)
    fin(rep, k)


def breakpoint_(prog, rep):
    for m in (True, False):
        k = k_breakpoint(prog, m)
        a, b, c, d, l = A("i.x"), A("i.y"), A("j.x"), A("j.y"), A("l")
        u, v = b - l, d - l
        for st, res in k.out:
            x, y = vals(k.I, st, res)
            f = st.facts

            def on(px, py, pu):
                # (x-px)^2 + (y-py)^2 = (y-l)^2
                return zero(st, (x - px) ** 2 + (y - py) ** 2 - (y - l) ** 2)
            inf = y is not None and (y == A(INF) or (y.atoms() == {INF}))
            su, sv, sy = f.sign(u), f.sign(v), f.sign(b - d)
            sx = f.sign(a - c)
            what = f"{k.name}: "
            if x is None or y is None:
                rep.ob(False, "breakpoint position", k.where, what + "both coordinates are numbers", res)
                continue
            if not (sy & Z):
                # different heights
                if su == Z:
                    rep.ob(zero(st, x - a) and on(c, d, v), "breakpoint position", k.where,
                           what + "left site on the sweep line: straight below/above it on the right parabola", (x, y))
                elif sv == Z:
                    rep.ob(zero(st, x - c) and on(a, b, u), "breakpoint position", k.where,
                           what + "right site on the sweep line: on the left parabola at its x", (x, y))
                else:
                    rep.ob(on(a, b, u), "breakpoint position", k.where, what + "lies on the left parabola", (x, y))
                    rep.ob(on(c, d, v), "breakpoint position", k.where, what + "lies on the right parabola", (x, y))
                    slope = (x - a) * v - (x - c) * u
                    rep.ob(not f.sign(slope) & N, "breakpoint branch", k.where,
                           what + "left parabola lower on the left, right parabola lower on the right", slope)
            elif sy == Z:
                rep.ob(zero(st, x - (a + c) / R.const(2)), "breakpoint position", k.where,
                       what + "sites of equal height: halfway between them", x)
                if sx == P:
                    want = zero(st, y - A("top.y")) if m else inf
                    rep.ob(want, "breakpoint position", k.where,
                           what + "sites of equal height in reverse order meet at the top", y)
                elif su == Z:
                    rep.ob(inf, "breakpoint position", k.where, what + "degenerate parabolas meet at infinity", y)
                elif not (su & Z):
                    rep.ob(on(a, b, u), "breakpoint position", k.where, what + "equal heights: on the parabola", (x, y))
                else:
                    rep.ob(False, "breakpoint position", k.where, what + "distinguishes degenerate parabolas", f.f)
            else:
                rep.ob(False, "breakpoint position", k.where, what + "distinguishes equal heights", f.f)
        fin(rep, k)


def intersects(prog, rep):
    k = k_intersects(prog)
    for st, v in k.out:
        for s2, b in k.I.truth(st, v, None):
            for (sy, sx), f in cases(s2, [A("i.y") - A("j.y"), A("i.x") - A("j.x")]):
                want = not (sy == 0 and sx > 0)
                rep.ob(b == want, "breakpoint exists", k.where,
                       f"exists {'always' if sy else 'when the left site is left'} "
                       f"(dy {'<=>'[sy + 1]} 0, dx {'<=>'[sx + 1]} 0)", b)
    fin(rep, k)


def segment(prog, rep):
    k = k_segment(prog)
    (ox, oy), (ex, ey), (px, py), (qx, qy) = xy("o"), xy("e"), xy("p"), xy("q")
    den = cross(ex - ox, ey - oy, qx - px, qy - py)
    tn = cross(px - ox, py - oy, qx - px, qy - py)       # t = tn/den along the ray
    sn = cross(px - ox, py - oy, ex - ox, ey - oy)       # s = sn/den along the side
    for st, v in k.out:
        f = st.facts
        if v == NONE:
            bad = False
            for (sd, stn, ssn, sr), g in cases(st, [den, tn, sn, den - sn]):
                if sd and stn * sd > 0 and ssn * sd >= 0 and sr * sd >= 0:
                    # coinciding ends carry no direction
                    bad = (sd, stn, ssn, sr)
                    if degenerate(g, ox, oy, ex, ey):
                        bad = False
                    else:
                        break
            rep.ob(not bad, "intersection found", k.where, "none only when the ray misses the side or is parallel",
                   f"{bad}: {f.f}")
            continue
        x, y = vals(k.I, st, v)
        rep.ob(zero(st, cross(x - ox, y - oy, ex - ox, ey - oy)), "on the ray", k.where, "the point lies on the ray", x)
        rep.ob(zero(st, cross(x - px, y - py, qx - px, qy - py)), "on the side", k.where, "the point lies on the side", x)
        okd = True
        for (sd, stn, ssn, sr), g in cases(st, [den, tn, sn, den - sn]):
            if degenerate(g, ox, oy, ex, ey):
                continue
            if not (sd and stn * sd > 0 and ssn * sd >= 0 and sr * sd >= 0):
                okd = (sd, stn, ssn, sr)
                break
        rep.ob(okd is True, "within the side", k.where, "the point is ahead of the ray's start and between the corners",
               f"{okd}: {f.f}")
    fin(rep, k)


def degenerate(g, ox, oy, ex, ey):
    return g.sign(ex - ox) == Z and g.sign(ey - oy) == Z or g.sign(sqrt((ex - ox) ** 2 + (ey - oy) ** 2)) == Z


def clockwise(prog, rep):
    k = k_clockwise(prog)
    mods = {}
    for n in "abc":
        s2 = State()
        I2, _, _ = k.I, None, None
        p, m = point(I2, s2, n), point(I2, s2, "m")
        out, exc = I2.run(s2, Fn(fn_of(prog, "Algebra", "calculate_angle")), [p, m])
        mods[n] = r_of(out[0][1])
    th = [mods[n] for n in "abc"]
    (ax, ay), (bx, by), (cx, cy) = xy("a"), xy("b"), xy("c")
    det = cross(bx - ax, by - ay, cx - ax, cy - ay)
    n = 0
    full = R.const(360)
    for st, v in k.out:
        for s2, res in k.I.truth(st, v, None):
            for (s12, s23, s13, sd), f in cases(s2, [th[0] - th[1], th[1] - th[2], th[0] - th[2], det]):
                if 0 in (s12, s23, s13, sd) or (s12 == s23 and s13 != s12):
                    continue
                # counter-clockwise iff the angles are cyclically increasing
                ccw = (s12 < 0) + (s23 < 0) + (s13 > 0) >= 2
                if ccw != (sd > 0):
                    continue
                if not all(f.assume(full + p - q, P) for p in th for q in th):
                    continue
                n += 1
                rep.ob(res == (not ccw), "orientation", k.where,
                       f"{'counter-' if ccw else ''}clockwise sites are reported as such (angles "
                       f"{'<=>'[s12 + 1]}{'<=>'[s23 + 1]})", f"{res}; {s2.facts.f}")
    rep.ob(n > 0, "orientation", k.where, "both answers are possible", n)
    fin(rep, k)


def angle(prog, rep):
    k = k_angle(prog)
    (ax, ay), (mx, my) = xy("a"), xy("m")
    at = fun("atan2", ay - my, ax - mx)
    for st, v in k.out:
        r = r_of(v)
        ok = False
        for a in (r.atoms() if r is not None else ()):
            d = poly.ATOM.get(a)
            if d and d[:2] == ("fun", "mod") and r == R.atom(a) and d[2][1] == R.const(360):
                ok = refers(d[2][0], next(iter(at.atoms())))
        rep.ob(ok, "angle", k.where, "degrees of atan2(dy, dx) reduced to [0, 360)", r)
    fin(rep, k)


def refers(r, atom):
    todo, seen = set(r.atoms()), set()
    while todo:
        a = todo.pop()
        if a == atom:
            return True
        if a in seen:
            continue
        seen.add(a)
        d = poly.ATOM.get(a)
        if d is not None:
            for x in ([d[1]] if d[0] == "sqrt" else d[2]):
                if isinstance(x, R):
                    todo |= x.atoms()
    return False


def distance(prog, rep):
    k = k_distance(prog)
    (ax, ay), (bx, by) = xy("a"), xy("b")
    for st, v in k.out:
        r = r_of(v)
        rep.ob(r is not None and zero(st, r * r - ((ax - bx) ** 2 + (ay - by) ** 2)) and not st.facts.sign(r) & N,
               "distance", k.where, "the distance is Euclidean", r)
    fin(rep, k)


def inside(prog, rep):
    for n in ((3, 4) if rep.tier == "thorough" else (3,)):
        k = k_inside(prog, n)
        cs = "pqrstu"[:n]
        zx, zy = xy("z")
        ys = [A(c + ".y") - zy for c in cs]
        # > 0: corner i -> i+1 passes to the right of z, given the side rises
        cr = [cross(A(cs[(i + 1) % n] + ".x") - A(cs[i] + ".x"), A(cs[(i + 1) % n] + ".y") - A(cs[i] + ".y"),
                    zx - A(cs[i] + ".x"), zy - A(cs[i] + ".y")) for i in range(n)]
        for st, v in k.out:
            for s2, res in k.I.truth(st, v, None):
                for sg, f in cases(s2, ys):
                    if not all(f.assume(ys[j] - ys[i], P) for i in range(n) for j in range(n) if sg[i] < sg[j]):
                        continue
                    need = [i for i in range(n) if sg[i] * sg[(i + 1) % n] <= 0]
                    st3 = s2.copy()
                    st3.facts = f
                    for ss, g in cases(st3, [cr[i] for i in need]):
                        c = dict(zip(need, ss))
                        if 0 in ss:
                            continue
                        got = set()
                        for above in ((lambda s: s > 0), (lambda s: s >= 0)):
                            odd = False
                            for i in need:
                                p, q = above(sg[i]), above(sg[(i + 1) % n])
                                # rising side with z on its left, falling side with z on its right
                                if p != q and (c[i] > 0) == q:
                                    odd = not odd
                            got.add(odd)
                        rep.ob(res in got, "point in polygon", k.where,
                               f"parity of the sides to the right of the point ({n} corners)",
                               f"{res} for heights {sg} and turns {c}")
        fin(rep, k)


def inside_circle(prog, rep):
    k = k_inside_circle(prog)
    (mx, my), (zx, zy) = xy("m"), xy("z")
    e = (zx - mx) ** 2 + (zy - my) ** 2 - A("r") ** 2
    for st, v in k.out:
        for s2, res in k.I.truth(st, v, None):
            for (s,), f in cases(s2, [e]):
                if s:
                    rep.ob(res == (s < 0), "point in circle", k.where,
                           f"{'inside' if s < 0 else 'outside'} points are reported as such", f"{res}")
    fin(rep, k)


def line(prog, rep):
    k = k_line(prog)
    (ax, ay), (bx, by) = xy("a"), xy("b")
    for st, v in k.out:
        f = st.facts
        cs = [r_of(x) for x in v.items] if isinstance(v, Tup) else []
        if len(cs) != 3 or None in cs:
            rep.ob(False, "line", k.where, "a line is given by three coefficients", v)
            continue
        if f.sign(ax - bx) == Z and f.sign(ay - by) == Z:
            continue
        for n, x, y in (("first", ax, ay), ("second", bx, by)):
            rep.ob(zero(st, cs[0] * x + cs[1] * y - cs[2]), "line", k.where, f"the line passes through the {n} point", cs)
        rep.ob(any(not (f.sign(c) & Z) for c in cs[:2]), "line", k.where, "the line has a direction", cs)
    fin(rep, k)


def cut_circle(prog, rep):
    k = k_cut_circle(prog)
    (mx, my), a, b, c = xy("m"), A("la"), A("lb"), A("lc")
    for st, v in k.out:
        items = v.items if isinstance(v, Tup) else ()
        if len(items) != 2:
            rep.ob(False, "crossings", k.where, "two crossings are returned", v)
            continue
        if items[0] == NONE:
            continue
        got = []
        for p in items:
            x, y = vals(k.I, st, p)
            got.append((x, y))
            rep.ob(zero(st, (x - mx) ** 2 + (y - my) ** 2 - A("r") ** 2), "on the circle", k.where,
                   "an edge is cut where it crosses the circle", (x, y))
            rep.ob(zero(st, a * x + b * y - c), "on the edge's line", k.where, "an edge is cut on its own line", (x, y))
        rep.ob(not zero(st, got[0][0] - got[1][0]) or not zero(st, got[0][1] - got[1][1]), "crossings", k.where,
               "both crossings are considered", got)
    rep.interp(k.I, len(k.out))
    rep.count("kernels")


def plot(prog, rep):
    k = k_plot(prog)
    (sx, sy), zx, l = xy("s"), A("z.x"), A("l")
    for st, v in k.out:
        if v == NONE:
            rep.ob(st.facts.sign(sy - l) == Z, "parabola", k.where, "no curve only for a site on the sweep line", st.facts.f)
            continue
        y = r_of(v)
        rep.ob(y is not None and zero(st, (zx - sx) ** 2 + (y - sy) ** 2 - (y - l) ** 2), "parabola", k.where,
               "plotted points are as far from the site as from the sweep line", y)
    fin(rep, k)


def area(prog, rep):
    for n in (3, 4, 5):
        k = k_area(prog, n)
        want = area2(k.names)
        for st, v in k.out:
            r = r_of(v)
            ok = r is not None and (zero(st, r * r * R.const(4) - want * want) or
                                    zero(st, r - fun("abs", want) / R.const(2)))
            rep.ob(ok and not st.facts.sign(r) & N or ok and r == fun("abs", want) / R.const(2), "area", k.where,
                   f"shoelace area of the corners ({n} corners)", r)
        fin(rep, k)


def sub(prog, rep):
    k = k_sub(prog)
    for cls, m, out, exc in k.rows:
        for st, v in out:
            x, y = vals(k.I, st, v)
            rep.ob(zero(st, x - (A("a.x") - A("b.x"))) and zero(st, y - (A("a.y") - A("b.y"))), "difference", where_fn(m),
                   f"{cls}: component-wise difference", (x, y))
    rep.interp(k.I, len(k.rows))
