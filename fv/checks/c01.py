"""C01 - order of events."""
from ..lib import *
from ..interp import CMPD
import ast
import itertools

RULE = ("The comparison two events are ordered by is interpreted over symbolic positions for every combination of "
        "event kinds; on each resulting partition and each sign case of (y1-y2, x1-x2) consistent with it the outcome "
        "must be the top-down, left-to-right, circle-first order, and it must be decided by exact comparisons only.")


class Cl(Client):
    def __init__(self):
        self.inexact = []
        self.ncmp = 0

    def on_compare(self, I, st, op, a, b, node):
        self.ncmp += 1
        for v in (a, b):
            if isinstance(v, Num) and (v.kind in ("float", "np") or v.inexact):
                self.inexact.append(I.where(node))


def events(I, st):
    """two events of each kind with their positions (x, y)"""
    out = {}
    for i in ("1", "2"):
        p = point(I, st, "s" + i)
        _, e = make(I, st, "SiteEvent", p)
        out["site" + i] = (e, A(f"s{i}.x"), A(f"s{i}.y"))
        c = point(I, st, "c" + i, cls="Coordinate")
        _, n = make(I, st, "LeafNode", make(I, st, "Arc", p)[1])
        _, e = make(I, st, "CircleEvent", c, num("r" + i), n)
        st.facts.assume(A("r" + i), frozenset((1,)))
        out["circle" + i] = (e, A(f"c{i}.x"), A(f"c{i}.y") - A("r" + i))
    return out


def both(I, st, op, a, b):
    """[(state, truth)], exceptions"""
    I.sinks.append([])
    out = []
    for s2, v in I.compare(st.copy(), op, a, b, None):
        out += I.truth(s2, v, None)
    return out, I.sinks.pop()


def run(prog, rep):
    cl = Cl()
    I = Interp(prog, cl)
    st0 = State()
    evs = events(I, st0)
    lt = prog.cls("Event").method("__lt__")
    where = where_fn(lt) if lt else "Event"
    # the position of an event
    for k, (e, x, y) in evs.items():
        for name, want in (("xd", x), ("yd", y)):
            for s2, v in I.getattr(st0.copy(), e, name, None):
                got = r_of(v)
                rep.ob(got is not None and s2.facts.norm(got - want).is_zero(), "event position",
                       f"{st0.obj(e).cls.name}.{name}", f"{k[:-1]} event: {name}",
                       f"value {v}, expected {want}")
    n = 0
    eq = prog.cls("Event").method("__eq__")
    for op, m, k1, k2 in itertools.product((ast.Eq, ast.NotEq), (eq,), ("site", "circle"), ("site", "circle")):
        if m is None:
            continue
        e1, x1, y1 = evs[k1 + "1"]
        e2, x2, y2 = evs[k2 + "2"]
        out, exc = both(I, st0, op(), e1, e2)
        n += len(out)
        rep.ob(not exc, "no exception", where_fn(m), f"asking whether a {k1} and a {k2} event are at the same place", exc)
        for s2, b in out:
            for (sy, sx), f in cases(s2, [y1 - y2, x1 - x2]):
                if not (sy or sx):
                    continue
                rep.ob(b == (op is ast.NotEq), "different places", where_fn(m),
                       f"{k1} event {'==' if op is ast.Eq else '!='} {k2} event when y1-y2 {'<=>'[sy + 1]} 0 and x1-x2 {'<=>'[sx + 1]} 0",
                       f"can be {b}; facts {s2.facts.f}")
    for k1 in ("site", "circle"):
        for k2 in ("site", "circle"):
            e1, x1, y1 = evs[k1 + "1"]
            e2, x2, y2 = evs[k2 + "2"]
            out, exc = both(I, st0, ast.Lt(), e1, e2)
            n += len(out)
            rep.ob(not exc, "no exception", where, f"comparing a {k1} event with a {k2} event", exc)
            if k1 == k2:
                # no event comes before another one that comes before it
                for s2, b in out:
                    if not b:
                        continue
                    for s3, c in both(I, s2, ast.Lt(), e2, e1)[0]:
                        rep.ob(not c, "strict order", where, f"two {k1} events are not each before the other", s3.facts.f)
            for s2, b in out:
                for (sy, sx), f in cases(s2, [y1 - y2, x1 - x2]):
                    if sy:
                        want = sy > 0
                    elif sx:
                        want = sx < 0
                    elif k1 != k2:
                        want = k1 == "circle"
                    else:
                        continue
                    rep.ob(b == want, "sweep order", where,
                           f"{k1} event < {k2} event when y1-y2 {'<=>'[sy + 1]} 0 and x1-x2 {'<=>'[sx + 1]} 0",
                           f"can be {b}, must be {want}; facts {s2.facts.f}")
    rep.ob(not cl.inexact, "exact comparison", cl.inexact[0] if cl.inexact else where,
           "events are ordered by comparisons of unrounded coordinates", "a float or lossy value is compared")
    rep.count("comparisons_interpreted", cl.ncmp)
    rep.interp(I, n)
    rep.assume("symbolic positions range over the reals; Decimal subtraction (centre.y - radius) is treated as exact")
