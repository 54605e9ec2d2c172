"""The event loop of create_diagram and the observer protocol (C02, C03).

The handlers, the bounding region and the clean-up are replaced by stand-ins with arbitrary effects on the queue (a handler may
schedule a circle event or cancel a pending one), and a ghost trace records what the loop does.  The queue hands out its events in any
order (C01 decides which order that is).  Two modes: histories of a few events, exactly; and one arbitrary iteration with an arbitrary
queue, for histories of any length.
"""
from .lib import *
from .model import ClassInfo
from .interp import EnumVal
from .geom import as_given


class LoopClient(Client):
    def __init__(self, prog):
        self.p = prog
        self.at = {}
        for c, m, k in (("Algorithm", "handle_site_event", "site"), ("Algorithm", "handle_circle_event", "circle"),
                        ("Algorithm", "clean_up_zero_length_edges", "cleanup"), ("Subject", "notify_observers", "notify"),
                        ("Subject", "inherit_observers_from", "join")):
            f = prog.cls(c).method(m)
            if f is None:
                raise Unsupported(f"anchor {c}.{m} not found")
            self.at[id(f.node)] = k
        self.cap = 1
        self.generic = False
        self.ends = []

    @staticmethod
    def log(st, *entry):
        st.ghost["trace"] = st.ghost.get("trace", ()) + (entry,)

    def intercept(self, I, st, fv, args, kwargs, node):
        f = fv.f.f if isinstance(fv, Bound) and isinstance(fv.f, Fn) else (fv.f if isinstance(fv, Fn) else None)
        k = f and self.at.get(id(f.node))
        if not k:
            return None
        a = ([fv.self_] if isinstance(fv, Bound) else []) + list(args)
        names = [x.arg for x in f.node.args.args]
        kw = dict(kwargs)
        for n in names[len(a):]:
            if n in kw:
                a.append(kw.pop(n))
            else:
                break
        w = I.where(node)
        if k == "join":
            return [(st, NONE)]
        if k == "notify":
            m = a[1] if len(a) > 1 else None
            self.log(st, "msg", m.v.name if isinstance(m, K) and isinstance(m.v, EnumVal) else str(m), a[0],
                     attr(I, st, a[0], "event"), attr(I, st, a[0], "sweep_line"), w)
            return [(st, a[0])]
        if k == "cleanup":
            self.log(st, "cleanup", attr(I, st, a[0], "edges"), attr(I, st, a[0], "sites"), w)
            return [(st, NONE)]
        e = a[1]
        self.log(st, k, e, attr(I, st, a[0], "sweep_line"), w)
        out = [(st, NONE)]
        if self.generic:
            return out
        q = attr(I, st, a[0], "event_queue")
        pend = [x for x in st.get(q, "segs") if isinstance(x, Ref) and st.obj(x).cls is self.p.cls("CircleEvent")
                and attr(I, st, x, "is_valid") == K(True)]
        if pend:
            s2 = st.copy()
            o, exc = I.run(s2, Bound(Fn(self.p.cls("CircleEvent").method("remove")), pend[0]), [])
            out += [(x, NONE) for x, _ in o]
        n = st.ghost.get("circles", 0)
        if n < self.cap:
            s3 = st.copy()
            s3.ghost["circles"] = n + 1
            c = circle_event(self.p, I, s3, f"c{n}")
            s3.set(q, "segs", s3.get(q, "segs") + (c,))
            out.append((s3, NONE))
        return out

    def on_opaque_call(self, I, st, fv, args, kwargs, node):
        if fv.key.startswith("region."):
            name = fv.key[7:]
            self.log(st, "region", name, tuple(args), tuple(sorted(kwargs.items(), key=lambda x: x[0])), I.where(node))
            return [(st, Opq(f"result.{name}"))]
        return None

    def on_list(self, I, st, ref, op, args, node):
        if op == "get":
            self.log(st, "get", args[0], I.where(node))

    def on_ext(self, I, st, path, args, kwargs, node):
        if path == "pq.empty" and self.generic:
            out = I.opq_bool(st, ("empty", fresh()), node)
            for x, v in out:
                if v == K(True):
                    self.log(x, "empty")
            return out
        return None

    def on_raise(self, I, st, exc):
        if exc.name == "Empty":
            self.log(st, "empty")

    # ------------------------------------------------------------ arbitrary iterations
    def ghost_keep(self):
        return ()

    def on_loop_end(self, I, st, written):
        if self.generic:
            self.ends.append(st)


def circle_event(prog, I, st, n):
    a, b, c = (point(I, st, f"{n}.{k}") for k in "abc")
    leaf = make(I, st, "LeafNode", make(I, st, "Arc", b)[1])[1]
    return make(I, st, "CircleEvent", center=make(I, st, "Coordinate", num(n + ".x"), num(n + ".y"))[1], radius=num(n + ".r"),
                arc_node=leaf, point_triple=Tup((a, b, c)), arc_triple=NONE)[1]


class Loop:
    def __init__(self, prog, tier):
        self.p, self.tier = prog, tier
        self.obs, self.interps, self.histories = [], [], 0
        f = prog.cls("Algorithm").method("create_diagram")
        if f is None:
            raise Unsupported("anchor Algorithm.create_diagram not found")
        self.f = f
        self.where = where_fn(f)

    def add(self, props, ok, rule, what, detail="", where=None):
        self.obs.append((props.split(), bool(ok), rule, where or self.where, what, detail))

    def start(self, cl, flag=None, old=0):
        I = Interp(self.p, cl)
        I.UNROLL_WHILE, I.UNROLL_TRUE = 10, True
        st = State()
        args = [Opq("region", "region")]
        kw = {} if flag is None else {"remove_zero_length_edges": flag}
        V = make(I, st, "Algorithm", *args, **kw)[1]
        st.ghost.clear()
        return I, st, V

    # ------------------------------------------------------------ bounded histories
    def bounded(self):
        runs = [(0, 0, None), (1, 1, None), (2, 1, None), (1, 2, K(True)), (1, 0, K(False)), (2, 2, None), (3, 1, None)]
        if self.tier == "thorough":
            runs += [(3, 2, None), (3, 0, K(False)), (2, 3, None), (4, 1, None)]
        for n, cap, flag in runs:
            cl = LoopClient(self.p)
            cl.cap = cap
            I, st, V = self.start(cl, flag)
            pts = st.mklist([Tup((num(f"p{i}.x"), num(f"p{i}.y"))) for i in range(n)])
            out, exc = I.run(st, Bound(Fn(self.f), V), [pts])
            pos = f"{n} site{'s' * (n != 1)}"
            for s, e in exc:
                self.add("C02 C03", False, "no exception", f"{pos}: creating a diagram", e)
            self.add("C02", out, "no exception", f"{pos}: creating a diagram ends", "no outcome")
            for s, v in out:
                self.check(I, s, V, n, flag, pos)
            self.interps.append((I, len(out)))
            self.histories += len(out)

    def is_a(self, st, v, cls):
        return isinstance(v, Ref) and isinstance(st.obj(v).cls, ClassInfo) and st.obj(v).cls.is_sub(self.p.cls(cls))

    def valid_at(self, I, st, e):
        return attr(I, st, e, "is_valid") == K(True)

    def check(self, I, st, V, n, flag, pos):
        tr = st.ghost.get("trace", ())
        handled, sites = [], []
        got = [t for t in tr if t[0] == "get"]
        names = [t for t in tr if t[0] == "msg" and t[1] != "DEBUG"]
        bad = []
        cur = None
        for t in tr:
            if t[0] == "get":
                cur = t[1]
            elif t[0] in ("site", "circle"):
                e = t[1]
                handled.append(e)
                if e != cur:
                    bad.append("a handler is given another event than the one taken from the queue")
                cls = "SiteEvent" if t[0] == "site" else "CircleEvent"
                if not self.is_a(st, e, cls):
                    bad.append(f"the {t[0]} event handler is given another kind of event")
                    continue
                yd = r_of(attr(I, st, e, "yd"))
                l = r_of(t[2])
                self.add("C02", l is not None and st.facts.norm(l - yd).is_zero(), "sweep line",
                         f"the sweep line is at a {t[0]} event while it is handled", f"{t[2]} instead of {yd}", t[3])
        self.add("C02", not bad, "events are handled", f"{pos}: each event goes to its handler", bad)
        self.add("C02", len(handled) == len(set(handled)), "events are handled", f"{pos}: no event is handled twice", tr)
        allq = [t[1] for t in got]
        rest = st.get(attr(I, st, V, "event_queue"), "segs")
        self.add("C02", not rest, "events are handled", f"{pos}: the loop goes on until no event is pending", rest)
        bad = []
        for e in allq:
            if self.is_a(st, e, "SiteEvent"):
                if e not in handled:
                    bad.append("a site event is taken from the queue but not handled")
                sites.append(e)
            elif self.is_a(st, e, "CircleEvent"):
                v = self.valid_at(I, st, e)
                if v and e not in handled:
                    bad.append("a valid circle event is not handled")
                if not v and e in handled:
                    # it may have been cancelled only before it was taken
                    bad.append("a false alarm is handled")
            else:
                bad.append(f"the queue holds {e}")
        self.add("C02", not bad, "events are handled", f"{pos}: every site event and every valid circle event is handled, a false alarm is not", bad)
        # the sites are the points given
        ps = [attr(I, st, e, "point") for e in sites]
        want = [(R.atom(f"p{i}.x"), R.atom(f"p{i}.y")) for i in range(n)]

        def xy(p):
            return (r_of(attr(I, st, p, "xd")), r_of(attr(I, st, p, "yd"))) if isinstance(p, Ref) else (None, None)
        have = [xy(p) for p in ps]
        ok = len(have) == n and all(sum(1 for h in have if None not in h and st.facts.norm(h[0] - w[0]).is_zero() and st.facts.norm(h[1] - w[1]).is_zero()) == 1
                                    for w in want)
        self.add("C02", ok, "one event per site", f"{pos}: one event is queued for each point given, at its coordinates", have)
        vs = [attr(I, st, e, a) for e in sites for a in ("xd", "yd")] + [attr(I, st, p, a) for p in ps if isinstance(p, Ref) for a in ("xd", "yd")]
        self.add("C16", all(as_given(v) for v in vs), "exact representation", f"{pos}: a site and its event keep the coordinates as given", vs)
        lst = attr(I, st, V, "sites")
        segs = st.get(lst, "segs") if isinstance(lst, Ref) and st.obj(lst).kind in ("list", "set") else None
        self.add("C02", segs is not None and len(segs) == n and {str(s) for s in segs} == {str(p) for p in ps}, "one event per site",
                 f"{pos}: the diagram's sites are the sites of the events", segs)
        # notifications
        self.protocol(I, st, V, tr, flag, pos, len(handled))

    def protocol(self, I, st, V, tr, flag, pos, nh):
        steps, cur, bad = 0, None, []
        phase = "sweep"
        order = []
        for t in tr:
            if t[0] in ("site", "circle"):
                if cur is not None:
                    bad.append("an event was handled without notification")
                if phase != "sweep":
                    bad.append("an event is handled after the end of the sweep")
                cur = t[1]
            elif t[0] == "msg" and t[1] != "DEBUG":
                if t[2] != V:
                    bad.append("a notification is sent by another object")
                if t[1] == "STEP_FINISHED":
                    if cur is None:
                        bad.append("STEP_FINISHED without a handled event")
                    else:
                        yd = r_of(attr(I, st, cur, "yd"))
                        if t[3] != cur:
                            bad.append("STEP_FINISHED while `event` is not the event handled")
                        if r_of(t[4]) is None or not st.facts.norm(r_of(t[4]) - yd).is_zero():
                            bad.append("STEP_FINISHED while the sweep line is not at the event")
                    cur = None
                    if phase != "sweep":
                        bad.append("STEP_FINISHED after the end of the sweep")
                elif t[1] == "SWEEP_FINISHED":
                    if cur is not None:
                        bad.append("an event was handled without notification")
                        cur = None
                    order.append("sweep")
                    phase = "finish"
                elif t[1] == "VORONOI_FINISHED":
                    order.append("voronoi")
                else:
                    bad.append(f"unknown message {t[1]}")
            elif t[0] == "region" and t[1] in ("finish_edges", "finish_polygon"):
                order.append(t[1])
            elif t[0] == "cleanup":
                order.append("cleanup")
        self.add("C03", not bad, "each handled event is reported once", f"{pos}: STEP_FINISHED follows each handled event, once", bad)
        marks = [o for o in order if o in ("sweep", "voronoi")]
        self.add("C03", marks == ["sweep", "voronoi"], "the end is reported once", f"{pos}: SWEEP_FINISHED and VORONOI_FINISHED are sent once, in this order", marks)
        want = ["sweep", "finish_edges", "finish_polygon"] + ([] if flag == K(False) else ["cleanup"]) + ["voronoi"]
        self.add("C03", order == want, "the end is reported once",
                 f"{pos}: the sweep's end is reported before clipping, the diagram's end after clipping, closing and clean-up", order)
        # what the region is given and what becomes of the result
        self.add("C20", ("cleanup" in order) == (flag != K(False)) and order.count("cleanup") <= 1, "clean-up when enabled",
                 f"the clean-up runs {'once' if flag != K(False) else 'not at all'} when {'disabled' if flag == K(False) else 'enabled'}", order)
        e, vs = attr(I, st, V, "edges"), attr(I, st, V, "vertices")
        self.add("C03", isinstance(e, Opq) and e.key == "result.finish_polygon.0", "the finished diagram", "the edges of the diagram are those of the closed region", e)

    # ------------------------------------------------------------ arbitrary queues
    def unbounded(self):
        cl = LoopClient(self.p)
        cl.generic = True
        I, st, V = self.start(cl)
        I.UNROLL_TRUE = False
        prog = self.p

        def maker(I, x, t):
            out = []
            y = x.copy()
            out.append((y, make(I, y, "SiteEvent", point(I, y, "g"))[1]))
            for ok in (True, False):
                y = x.copy()
                e = circle_event(prog, I, y, "k")
                if not ok:
                    y = I.run(y, Bound(Fn(prog.cls("CircleEvent").method("remove")), e), [])[0][0][0]
                out.append((y, e))
            return out
        init = self.p.cls("Algorithm").method("initialize")
        if init is None:
            raise Unsupported("anchor Algorithm.initialize not found")
        cl.at[id(init.node)] = "init"
        old = cl.intercept

        def intercept(I, st, fv, args, kwargs, node):
            f = fv.f.f if isinstance(fv, Bound) and isinstance(fv.f, Fn) else None
            if f is not None and f.node is init.node:
                q = attr(I, st, V, "event_queue")
                st.set(q, "segs", (Seg(maker),))
                I.setattr(st, V, "sites", args[0], None)
                return [(st, q)]
            return old(I, st, fv, args, kwargs, node)
        cl.intercept = intercept
        cl.havoc_field = lambda I, st, o, f: (Seg(maker),) if f == "segs" and st.heap[o].kind == "pq" else None
        pts = st.mklist([Tup((num("p.x"), num("p.y")))])
        out, exc = I.run(st, Bound(Fn(self.f), V), [pts])
        # exceptions: the arbitrary queue may begin with a circle event, a real one cannot
        n = 0
        for s in cl.ends:
            n += self.episodes(I, s, V, s.ghost.get("trace", ()), True)
        for s, v in out:
            tr = s.ghost.get("trace", ())
            n += self.episodes(I, s, V, tr, True)
            last = [t[0] for t in tr if t[0] in ("get", "empty")]
            self.add("C02", last[-1:] == ["empty"], "events are handled", "the loop is left only when no event is pending", last)
            self.protocol(I, s, V, [t for t in tr if t[0] not in ("get", "site", "circle") and t[1:2] != ("STEP_FINISHED",)], None, "arbitrary history", 0)
        self.add("C02", n, "events are handled", "an arbitrary iteration of the event loop is found", "no loop takes events from the queue")
        self.interps.append((I, len(out) + n))
        self.histories += n

    def episodes(self, I, st, V, tr, closed):
        """each event taken is dealt with before the next one is"""
        eps = []
        for t in tr:
            if t[0] == "get":
                eps.append([t])
            elif t[0] in ("site", "circle") or (t[0] == "msg" and t[1] not in ("DEBUG", "SWEEP_FINISHED", "VORONOI_FINISHED")):
                if not eps:
                    self.add("C02 C03", False, "events are handled", "an event is handled or reported only after it was taken", t)
                    return 0
                eps[-1].append(t)
        for ep in eps:
            self.iteration(I, st, V, ep)
        return len(eps)

    def iteration(self, I, st, V, tr):
        g = [t for t in tr if t[0] == "get"]
        h = [t for t in tr if t[0] in ("site", "circle")]
        m = [t for t in tr if t[0] == "msg" and t[1] != "DEBUG"]
        e = g[0][1]
        site = self.is_a(st, e, "SiteEvent")
        want = site or self.valid_at(I, st, e)
        kind = "site" if site else "circle"
        self.add("C02", [t[:2] for t in h] == ([(kind, e)] if want else []), "events are handled",
                 "in any history a site event or a valid circle event is handled once, a false alarm is not", h)
        self.add("C03", [t[1] for t in m] == (["STEP_FINISHED"] if want else []), "each handled event is reported once",
                 "in any history STEP_FINISHED is sent once for a handled event and not for a false alarm", m)
        if want and len(m) == 1 and len(h) == 1:
            yd = r_of(attr(I, st, e, "yd"))
            self.add("C02", r_of(h[0][2]) is not None and st.facts.norm(r_of(h[0][2]) - yd).is_zero(), "sweep line",
                     f"in any history the sweep line is at a {kind} event while it is handled", h[0][2])
            ok = m[0][3] == e and r_of(m[0][4]) is not None and st.facts.norm(r_of(m[0][4]) - yd).is_zero() and tr.index(m[0]) > tr.index(h[0])
            self.add("C03", ok, "each handled event is reported once",
                     "in any history `event` and `sweep_line` are those of the event just handled when it is reported", m[0])


def run(prog, rep, pid):
    lp = Loop(prog, rep.tier)
    try:
        lp.bounded()
        lp.unbounded()
    finally:
        for props, ok, rule, where, what, detail in lp.obs:
            if pid in props:
                rep.ob(ok, rule, where, what, detail)
    for I, k in lp.interps:
        rep.interp(I, k)
    rep.count("event_histories", lp.histories)
    rep.assume("the queue returns a smallest event (queue.PriorityQueue)")
    return lp
