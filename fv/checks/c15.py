"""C15 - the diagram moves and grows with its input."""
from ..geom import *

RULE = ("Dimension and translation analysis of the geometric kernels: every comparison of numbers reached from them must be "
        "homogeneous in lengths and unchanged by a translation along either axis, and every computed coordinate, radius "
        "and area must translate and scale with the input.")


def run(prog, rep):
    n = 0
    for mk, results in (
            (k_circle, circle), (lambda p: k_breakpoint(p, True), coord("l")), (lambda p: k_breakpoint(p, False), coord("l")),
            (k_intersects, None), (k_segment, coord("")), (k_clockwise, None), (k_angle, angle), (k_distance, length),
            (k_inside, None), (k_inside_circle, None), (k_line, None), (k_plot, height), (lambda p: k_area(p, 3), area),
            (lambda p: k_area(p, 4), area), (k_cleanup_cmp, None)):
        k = mk(prog)
        for where, r, a, b in k.cl.cmps:
            n += 1
            what = f"comparison in {where.split(' in ')[-1]} is independent of position and scale"
            if k.name == "line cut by the bounding circle":
                continue
            if mixed(r):
                rep.ob(False, "scale covariance", where, what, f"a length is compared with {show(b, a)}: {r}")
                continue
            for ax in "xy":
                rep.ob(same_sign(k, r, ax), "translation covariance", where, what, f"depends on the position along {ax}: {r}")
            rep.ob(True, "scale covariance", where, what)
        if results:
            for st, v in k.out:
                if isinstance(v, K):
                    continue
                for name, r, deg, moves in results(k, st, v):
                    if r is None:
                        rep.ob(False, "scale covariance", k.where, f"{k.name}: {name} is a number", v)
                        continue
                    if INF in r.atoms():
                        continue
                    for ax in "xy":
                        d = shifted(r, ax) - r - (A("#t") if moves == ax else R.const(0))
                        s2 = st.facts.copy()
                        rep.ob(d.is_zero() or shifted_zero(s2, d, ax), "translation covariance", k.where,
                               f"{k.name}: {name} moves with the input along {ax}", r)
                    g = degree(r)
                    rep.ob(g in (deg, "any"), "scale covariance", k.where, f"{k.name}: {name} scales with the input",
                           f"degree {g}, expected {deg}: {r}")
        rep.interp(k.I, len(k.out))
        rep.count("kernels")
    rep.count("comparisons_examined", n)
    rep.assume("floating-point rounding is not modelled")


def show(b, a):
    return repr(b.r) if b.r.is_const() else repr(a.r)


def mixed(r):
    return degree(r) is None


def same_sign(k, r, ax):
    return (shifted(r, ax) - r).is_zero()


def shifted_zero(f, d, ax):
    return f.norm(d).is_zero()


def circle(k, st, v):
    c = attr(k.I, st, v, "center")
    yield "centre x", r_of(attr(k.I, st, c, "xd")), 1, "x"
    yield "centre y", r_of(attr(k.I, st, c, "yd")), 1, "y"
    yield "radius", r_of(attr(k.I, st, v, "radius")), 1, ""
    yield "event y", r_of(attr(k.I, st, v, "yd")), 1, "y"


def coord(_):
    def f(k, st, v):
        yield "x", r_of(attr(k.I, st, v, "xd")), 1, "x"
        yield "y", r_of(attr(k.I, st, v, "yd")), 1, "y"
    return f


def angle(k, st, v):
    yield "angle", r_of(v), 0, ""


def length(k, st, v):
    yield "distance", r_of(v), 1, ""


def height(k, st, v):
    yield "height", r_of(v), 1, "y"


def area(k, st, v):
    yield "area", r_of(v), 2, ""
