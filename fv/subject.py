"""The observer protocol of Subject and the bounding region joined to a diagram (C03)."""
from .lib import *
from .model import ClassInfo
from .interp import EnumVal


class SubClient(Client):
    """records Observer.update; an observer may attach or detach others while it is told"""

    def __init__(self, prog):
        self.p = prog
        f = prog.cls("Observer").method("update")
        if f is None:
            raise Unsupported("anchor Observer.update not found")
        self.node = f.node
        self.react = {}
        self.ends = []

    def intercept(self, I, st, fv, args, kwargs, node):
        if not (isinstance(fv, Bound) and isinstance(fv.f, Fn) and fv.f.f.node is self.node):
            return None
        kw = dict(kwargs)
        sender = args[0] if args else kw.pop("subject", None)
        msg = args[1] if len(args) > 1 else kw.pop("message", None)
        st.ghost["told"] = st.ghost.get("told", ()) + ((fv.self_, sender, msg, tuple(sorted(kw.items(), key=lambda x: x[0]))),)
        act = self.react.get(fv.self_)
        if act is None or st.ghost.get("reacted"):
            return [(st, NONE)]
        st.ghost["reacted"] = True
        return [(x, NONE) for x in act(I, st)]

    def ghost_keep(self):
        return ()

    def on_loop_end(self, I, st, written):
        self.ends.append(st)


class Subjects:
    def __init__(self, prog, tier):
        self.p, self.tier = prog, tier
        self.obs, self.interps, self.n = [], [], 0
        for m in ("attach_observer", "detach_observer", "notify_observers", "inherit_observers_from"):
            if prog.cls("Subject").method(m) is None:
                raise Unsupported(f"anchor Subject.{m} not found")
        self.msg = K(EnumVal("Message", "STEP_FINISHED"))
        self.where = where_fn(prog.cls("Subject").method("notify_observers"))

    def add(self, ok, what, detail=""):
        self.obs.append((bool(ok), self.where, what, detail))

    # ------------------------------------------------------------ a small scripting layer
    def new(self):
        self.cl = SubClient(self.p)
        self.I = Interp(self.p, self.cl)
        self.I.UNROLL_WHILE = 8
        self.I.FORK_SETS = True
        self.st = State()
        self.o = [self.st.new(Obj("inst", self.p.cls("Observer")), "obs") for _ in range(6)]
        self.interps.append(self.I)

    def mk(self, cls, *args):
        return make(self.I, self.st, cls, *args)[1]

    def diagram(self, region):
        return self.mk("Algorithm", region)

    def region(self, kind="BoundingBox"):
        if kind == "BoundingCircle":
            return self.mk(kind, K(1), K(2), K(3))
        if kind == "Polygon":
            return self.mk(kind, self.st.mklist([Tup((K(0), K(0))), Tup((K(4), K(0))), Tup((K(1), K(5)))]))
        return self.mk(kind, K(0), K(5), K(0), K(7))

    def step(self, st, obj, name, *args):
        f = self.p.cls(self.st.obj(obj).cls.name).method(name)
        out, exc = self.I.run(st, Bound(Fn(f), obj), list(args))
        self.add(not exc, f"{name} raises nothing", exc)
        return [x for x, _ in out]

    def attach(self, obj, *os):
        for o in os:
            out = self.step(self.st, obj, "attach_observer", self.o[o])
            if len(out) != 1:
                raise Unsupported(f"attach_observer has {len(out)} outcomes")
            self.st = out[0]

    def detach(self, obj, *os):
        for o in os:
            out = self.step(self.st, obj, "detach_observer", self.o[o])
            if len(out) != 1:
                raise Unsupported(f"detach_observer has {len(out)} outcomes")
            self.st = out[0]

    def told(self, obj, want, sender, what, free=(), states=None):
        """after a message to obj each observer of `want` was told once, in this order, and (apart from `free`) no other"""
        for st in states or [self.st.copy()]:
            st.ghost["told"] = ()
            st.ghost.pop("reacted", None)
            kw = {"payload": Opq("payload")}
            f = self.p.cls(st.obj(obj).cls.name).method("notify_observers")
            out, exc = self.I.run(st, Bound(Fn(f), obj), [self.msg], kw)
            self.add(not exc and out, f"{what}: notifying raises nothing", exc)
            for s, _ in out:
                self.n += 1
                t = s.ghost.get("told", ())
                got = [x[0] for x in t if x[0] not in [self.o[i] for i in free]]
                names = [self.o.index(x) + 1 if x in self.o else "?" for x in got]
                self.add(names == [i + 1 for i in want if i not in free], f"{what}: each observer is told once, in the order attached",
                         f"told {names}, must be {[i + 1 for i in want]}")
                self.add(all(sum(1 for x in t if x[0] == self.o[i]) <= 1 for i in free), f"{what}: no observer is told twice", t)
                self.add(all(x[1] == sender for x in t), f"{what}: the sender is the diagram", [x[1] for x in t])
                self.add(all(x[2] == self.msg and x[3] == (("payload", Opq("payload")),) for x in t), f"{what}: the message and its payload are passed on",
                         [x[2:] for x in t])
            yield_states = [s for s, _ in out]
        return yield_states

    # ------------------------------------------------------------ scenarios
    def run(self):
        kinds = ["BoundingBox", "BoundingCircle", "Polygon"] if self.tier == "thorough" else ["BoundingBox"]
        # a diagram on its own
        for k in range(0, 4):
            self.new()
            v = self.diagram(self.region())
            self.attach(v, *range(k))
            self.told(v, list(range(k)), v, f"a diagram with {k} observers")
            for d in range(k):
                keep = self.st.copy()
                self.detach(v, d)
                self.told(v, [i for i in range(k) if i != d], v, f"observer {d + 1} of {k} detached")
                self.attach(v, 4)
                self.told(v, [i for i in range(k) if i != d] + [4], v, f"observer {d + 1} of {k} detached and another attached")
                self.st = keep
        # two diagrams are independent
        self.new()
        v, w = self.diagram(self.region()), self.diagram(self.region())
        self.attach(v, 0)
        self.attach(w, 1, 2)
        self.told(v, [0], v, "one of two diagrams")
        self.told(w, [1, 2], w, "the other of two diagrams")
        for kind in kinds:
            self.regions(kind)
        # while being notified
        for a in range(3):
            for what, act in (("detaches itself", lambda v, o: [("detach", v, o)]),
                              ("detaches the next", lambda v, o: [("detach", v, (o + 1) % 3)]),
                              ("detaches the previous", lambda v, o: [("detach", v, (o + 2) % 3)]),
                              ("attaches another", lambda v, o: [("attach", v, 3)]),
                              ("replaces itself", lambda v, o: [("detach", v, o), ("attach", v, 3)]),
                              ("detaches all", lambda v, o: [("detach", v, 0), ("detach", v, 1), ("detach", v, 2)])):
                for via in ("diagram", "region"):
                    self.new()
                    b = self.region()
                    v = self.diagram(b)
                    self.attach(v, 0, 1, 2)
                    ops = act(v, a)
                    free = [o for _, _, o in ops if o != a]

                    def react(I, st, ops=ops):
                        cur = [st]
                        for n, obj, o in ops:
                            cur = [y for x in cur for y in self.step(x, obj, n + "_observer", self.o[o])]
                        return cur
                    self.cl.react = {self.o[a]: react}
                    text = f"observer {a + 1} of 3 {what} while a {via} notifies"
                    sts = self.told(b if via == "region" else v, [0, 1, 2], v, text, free=free)
                    after = [0, 1, 2]
                    for n, _, o in ops:
                        after = [x for x in after if x != o] if n == "detach" else after + [o]
                    self.cl.react = {}
                    if sts:
                        self.told(v, after, v, "afterwards, " + text, states=[s.copy() for s in sts])
                        self.told(b, after, v, "afterwards through the region, " + text, states=[s.copy() for s in sts])
        self.any_number()

    def regions(self, kind):
        # a region passes messages to its diagram's observers
        for before in range(0, 3):
            for after in range(0, 3):
                self.new()
                b = self.region(kind)
                v = self.diagram(self.region(kind))
                self.attach(v, *range(before))
                self.st = self.step(self.st, b, "inherit_observers_from", v)[0]
                self.attach(v, *range(before, before + after))
                self.told(b, list(range(before + after)), v, f"a {kind} joined between {before} and {after} observers")
                self.told(v, list(range(before + after)), v, f"the diagram with a {kind} joined between {before} and {after} observers")
                if before + after:
                    self.detach(v, 0)
                    self.told(b, list(range(1, before + after)), v, f"a {kind} after detaching one of {before + after} observers")
        # as the constructor joins it
        self.new()
        b = self.region(kind)
        v = self.diagram(b)
        self.attach(v, 0, 1)
        self.told(b, [0, 1], v, f"a {kind} of a diagram")
        # two diagrams with regions of their own
        self.new()
        b, c = self.region(kind), self.region(kind)
        v, w = self.diagram(b), self.diagram(c)
        self.attach(v, 0)
        self.attach(w, 1)
        self.told(b, [0], v, f"the {kind} of the first of two diagrams")
        self.told(c, [1], w, f"the {kind} of the second of two diagrams")
        # a region used again
        for early in (True, False):
            self.new()
            b = self.region(kind)
            v = self.diagram(b)
            if early:
                self.attach(v, 0)
            w = self.diagram(b)
            self.told(b, [], w, f"a {kind} used for a second diagram without observers")
            self.attach(w, 1)
            self.told(b, [1], w, f"a {kind} used for a second diagram")
            if early:
                self.attach(v, 2)
                self.told(b, [1], w, f"a {kind} used for a second diagram, after an observer was attached to the first")
                self.told(v, [0, 2], v, f"the first diagram after its {kind} was used for a second")
                self.detach(v, 0)
                self.told(b, [1], w, f"a {kind} used for a second diagram, after one was detached from the first")
            else:
                self.attach(v, 0)
                self.told(b, [1], w, f"a {kind} used for a second diagram, after the first got its first observer")
        # a region that served two diagrams goes back
        self.new()
        b = self.region(kind)
        v = self.diagram(b)
        w = self.diagram(b)
        self.attach(w, 1)
        self.st = self.step(self.st, b, "inherit_observers_from", v)[0]
        self.attach(v, 0)
        self.told(b, [0], v, f"a {kind} joined to its first diagram again")

    def any_number(self):
        """any number of observers: one arbitrary observer of the list is told once per message"""
        self.new()
        v = self.diagram(self.region())

        def maker(I, x, t):
            return [(x, x.new(Obj("inst", self.p.cls("Observer")), "any"))]
        fields = [n for n, f in self.st.obj(v).fields.items() if isinstance(f, Ref) and self.st.obj(f).kind == "list"]
        # the list that grows when an observer is attached
        probe = self.st.copy()
        out = self.step(probe, v, "attach_observer", self.o[0])
        grown = [n for n in fields if self.o[0] in (out[0].get(attr(self.I, out[0], v, n), "segs") or ())]
        if len(grown) != 1:
            return
        self.st.set(attr(self.I, self.st, v, grown[0]), "segs", (Seg(maker),))
        self.cl.ends = []
        f = self.p.cls("Algorithm").method("notify_observers")
        self.st.ghost["told"] = ()
        out, exc = self.I.run(self.st, Bound(Fn(f), v), [self.msg], {"payload": Opq("payload")})
        ends = [s for s in self.cl.ends]
        for s in ends:
            t = s.ghost.get("told", ())
            self.n += 1
            self.add(len(t) == 1 and t[0][1] == v and t[0][2] == self.msg, "any number of observers: each is told once", t)
        self.add(out and ends, "any number of observers: notifying goes through the list", exc)
        for s, _ in out:
            self.add(not s.ghost.get("told"), "any number of observers: nobody is told outside the loop", s.ghost.get("told"))


def run(prog, rep):
    s = Subjects(prog, rep.tier)
    try:
        s.run()
    finally:
        for ok, where, what, detail in s.obs:
            rep.ob(ok, "observers are told", where, what, detail)
    for I in s.interps:
        rep.interp(I, 1)
    rep.count("notifications", s.n)
