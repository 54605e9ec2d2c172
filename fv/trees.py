"""Shape analysis of the tree operations (C12, C13).

Trees are symbolic: a node is either materialised (children known) or opaque (any subtree).  Opaque nodes are
materialised on demand into every possible shape.  Each opaque subtree has symbolic first/last items and an optional
symbolic search target; loops are analysed through one generic iteration in which the moving node is an arbitrary node
related to the starting node by those symbols, and recursive calls are replaced by the contract being proved.
"""
from .lib import *
from .interp import UNBOUND, Meth


class TreeClient(Client):
    """full: every internal node has two children;  avl: heights of opaque subtrees are right and balanced"""

    def __init__(self, prog, full=False, avl=False, heights=False, ancestors=True):
        self.p = prog
        self.fork_minmax = True
        self.full, self.avl, self.heights, self.ancestors = full, avl or False, heights or avl, ancestors
        N = self.N = prog.cls("Node")
        self.L, self.R_, self.H = (prog.field_of("Node", x) for x in ("left", "right", "height"))
        self.P = prog.field_of("Node", "parent")
        self.D = "data" if N.getter("data") is None else prog.field_of("Node", "data")
        self.opq_calls = []
        self.contracts = {}
        self.exact = False         # search for the item with exactly the key
        self.key = None            # Num: the key being searched for
        self.loops = 0
        self.closed = False        # all ancestors are materialised: climbing loops are followed exactly

    # ---------------------------------------------------------------- nodes
    def opaque(self, st, name=None, parent=None, height=None, tokens=None):
        """an arbitrary non-empty subtree; parent: value, or None for 'unknown'"""
        oid = fresh("T")
        f = {self.D: Num(R.atom("key." + oid), "dec")}
        if parent is not None:
            f[self.P] = parent
        if self.heights:
            f[self.H] = Num(height if height is not None else R.atom("h." + oid), "int")
            if height is None:
                st.facts.assume(R.atom("h." + oid), frozenset((1,)))
                st.facts.assume(R.atom("h." + oid) - R.const(1), frozenset((0, 1)))
        st.heap[oid] = Obj("inst", self.N, f, lazy=True, meta={"opq": True})
        tk = tokens or {}
        st.ghost["tok"] = {**st.ghost.get("tok", {}), **{(k, oid): tk.get(k, f"{k}:{oid}") for k in ("first", "last", "find")}}
        return Ref(oid)

    def plain(self, st, left, right, parent=NONE, height=None):
        """a materialised node with given children (values); the children's parent links are set"""
        r = self.opaque(st, parent=parent, height=height)
        self.shape(st, r, left, right)
        return r

    def tok(self, st, kind, oid):
        return st.ghost.get("tok", {}).get((kind, oid), f"{kind}:{oid}")

    def settok(self, st, kind, oid, t):
        st.ghost["tok"] = {**st.ghost.get("tok", {}), (kind, oid): t}

    def bindtok(self, st, a, b):
        """token a denotes the same item as token / node b"""
        if a != b:
            st.ghost["eq"] = {**st.ghost.get("eq", {}), a: b}

    def find(self, st, t):
        eq = st.ghost.get("eq", {})
        n = 0
        while t in eq and n < 200:
            t, n = eq[t], n + 1
        return t

    def shape(self, st, r, left, right):
        """fix the children of node r (initial state)"""
        o = r.oid
        st.heap[o] = st.heap[o].with_field(self.L, left).with_field(self.R_, right)
        st.ghost["init"] = {**st.ghost.get("init", {}), (o, "l"): left, (o, "r"): right}
        for c in (left, right):
            if isinstance(c, Ref):
                st.heap[c.oid] = st.heap[c.oid].with_field(self.P, r)
                st.ghost["init"] = {**st.ghost["init"], (c.oid, "p"): r}
        # first / last item of the subtree
        self.bindtok(st, self.find(st, self.tok(st, "first", o)),
                     self.find(st, self.tok(st, "first", left.oid)) if isinstance(left, Ref) else "node:" + o)
        self.bindtok(st, self.find(st, self.tok(st, "last", o)),
                     self.find(st, self.tok(st, "last", right.oid)) if isinstance(right, Ref) else "node:" + o)
        if left == NONE and right == NONE and not self.exact:
            self.bindtok(st, self.find(st, self.tok(st, "find", o)), "node:" + o)

    def materialise(self, st, r):
        """all shapes of an opaque node: [st]"""
        o = r.oid
        ob = st.heap[o]
        out = []
        h = ob.fields.get(self.H) if self.heights else None
        h = h.r if isinstance(h, Num) else None
        h0 = st.ghost.get("h0", {}).get(o, h)          # the height the shape must have
        cases_ = []
        if h0 is None:
            cases_ = [(None, None, ()), ("?", "?", ())]
            if not self.full:
                cases_ += [("?", None, ()), (None, "?", ())]
        elif self.avl:
            one = R.const(1)
            cases_ = [(None, None, ((h0 - one, 0),))]
            two = ((h0 - R.const(2), (0, 1)),)
            cases_ += [(h0 - one, h0 - one, two)]
            for z in (0, 1):
                low = None if z == 0 else h0 - R.const(2)
                if z == 0 and self.full:
                    continue
                cond = ((h0 - R.const(2), z),)
                cases_ += [(h0 - one, low, cond), (low, h0 - one, cond)]
        else:
            one = R.const(1)
            ge1 = (h0 - R.const(2), (0, 1))
            cases_ = [(None, None, ((h0 - one, 0),)), (h0 - one, None, (ge1,)), (None, h0 - one, (ge1,))]
            a, b = R.atom(fresh("h")), R.atom(fresh("h"))
            cases_ += [(h0 - one, a, (ge1, (a, 1), (h0 - one - a, (0, 1)))), (b, h0 - one, (ge1, (b, 1), (h0 - one - b, 1)))]
            if self.full:
                cases_ = [c for c in cases_ if (c[0] is None) == (c[1] is None)]
        for i, (l, rr, conds) in enumerate(cases_):
            s = st.copy() if i < len(cases_) - 1 else st
            ok = all(s.facts.assume(e, frozenset(g if isinstance(g, tuple) else (g,))) for e, g in conds)
            if not ok:
                continue
            kids = []
            for x in (l, rr):
                kids.append(NONE if x is None else self.opaque(s, parent=r, height=None if x == "?" else x))
            self.shape(s, r, *kids)
            out.append(s)
        return out

    # ---------------------------------------------------------------- hooks
    def lazy_field(self, I, st, ref, field, node):
        if field in (self.L, self.R_):
            return [(s, s.get(ref, field)) for s in self.materialise(st, ref)]
        if field == self.P and self.ancestors:
            out = []
            o = ref.oid
            root = st.copy()
            root.heap[o] = root.heap[o].with_field(self.P, NONE)
            root.ghost["init"] = {**root.ghost.get("init", {}), (o, "p"): NONE}
            out.append((root, NONE))
            for left in (True, False):
                s = st.copy()
                p = self.opaque(s)
                kinds = [True] if self.full else [True, False]
                for sib in kinds:
                    s2 = s.copy()
                    q = self.opaque(s2, parent=p) if sib else NONE
                    keep = s2.heap[o]
                    self.shape(s2, p, *((ref, q) if left else (q, ref)))
                    out.append((s2, p))
            return out
        return None

    def ghost_keep(self):
        return ("null", "pairs")

    def pairs(self, st, written):
        """(v, w, side, sibling is None): variable w holds the parent of variable v's node; side None: w is None, v a root"""
        vs = [(o, f) for o, f in written if o in st.heap and st.heap[o].kind == "frame"]
        out = set()
        for a in vs:
            v = st.heap[a[0]].fields.get(a[1])
            if not (isinstance(v, Ref) and self.P in st.heap[v.oid].fields):
                continue
            for b in vs:
                w = st.heap[b[0]].fields.get(b[1])
                if a != b and b[1] != "self" and w == st.heap[v.oid].fields[self.P]:
                    if w == NONE:
                        out.add((a, b, None, None))
                    elif isinstance(w, Ref) and self.L in st.heap[w.oid].fields:
                        l, r = st.heap[w.oid].fields[self.L], st.heap[w.oid].fields[self.R_]
                        if v in (l, r):
                            out.add((a, b, "l" if v == l else "r", (r if v == l else l) == NONE))
        return out

    def on_loop_end(self, I, st, written):
        st.ghost["pairs"] = frozenset(self.pairs(st, written))
        st.ghost["null"] = frozenset((o, f) for o, f in written if st.heap[o].kind == "frame" and st.heap[o].fields.get(f) == NONE)

    def on_opaque_call(self, I, st, v, args, kwargs, node):
        if v.typ == "predicate":
            self.opq_calls.append(args)
            return I.opq_bool(st, ("pred", v.key) + tuple(ckey(a) for a in args), node)
        return None

    def intercept(self, I, st, fv, args, kwargs, node):
        f = fv.f.f if isinstance(fv, Bound) and isinstance(fv.f, Fn) else (fv.f if isinstance(fv, Fn) else None)
        if f is None:
            return None
        c = self.contracts.get(id(f.node))
        if c is not None and sum(1 for g in I.stack if g.node is f.node) >= 1:
            a = ([fv.self_] if isinstance(fv, Bound) else []) + list(args)
            return c(I, st, a, kwargs, node)
        return None


def where_of(prog, qual):
    cn, mn = qual.split(".")
    c = prog.cls(cn)
    m = c.method(mn) or c.getter(mn)
    if m is None:
        raise Unsupported(f"anchor {qual} not found")
    return where_fn(m)


class TreeInterp(Interp):
    """loops: a variable that moves over nodes is, at the loop head, an arbitrary node that shares with its starting
    node those of {first item, last item, search target} which an iteration preserves"""
    KINDS = ("first", "last", "find")

    def __init__(self, prog, client):
        super().__init__(prog, client)
        self.UNROLL_WHILE = 8 if client.closed else 0
        self.UNROLL_TRUE = client.closed

    def generic_loop(self, s, st, fr, *a):
        st = st.copy()
        st.ghost["null"] = st.ghost["pairs"] = None
        return super().generic_loop(s, st, fr, *a)

    def havoc(self, st, written, fr, s, rels, joins=None):
        cl = self.c
        rels = rels if rels is not None else {}
        pre = st.ghost.get("pairs")
        pre = cl.pairs(st, written) if pre is None else pre
        pre = [p for p in pre if rels.get(("pair",) + p[:2], True)]
        for o, f in sorted(written, key=repr):
            ob = st.heap.get(o)
            if ob is None:
                continue
            old = ob.fields.get(f)
            if ob.kind == "frame" and isinstance(old, Ref) and isinstance(st.heap[old.oid].cls, ClassInfo_) \
                    and st.heap[old.oid].cls.is_sub(cl.N):
                keep = rels.get((o, f), self.KINDS)
                if (o, f) in (st.ghost.get("null") or ()):
                    if "find" in keep:
                        cl.bindtok(st, cl.find(st, cl.tok(st, "find", old.oid)), "none")
                    st.heap[o] = st.heap[o].with_field(f, NONE)
                    continue
                c = cl.opaque(st, tokens={k: cl.find(st, cl.tok(st, k, old.oid)) for k in keep if k != "find"})
                if "find" in keep:
                    cl.bindtok(st, cl.find(st, cl.tok(st, "find", old.oid)), "find:" + c.oid)
                st.heap[o] = st.heap[o].with_field(f, c)
                cl.loops += 1
            elif ob.kind == "frame" and old == NONE and any(p[1] == (o, f) and p[2] for p in pre):
                st.heap[o] = st.heap[o].with_field(f, cl.opaque(st))       # its child is fixed below
            elif ob.kind == "frame" and old == NONE:
                if any(p[1] == (o, f) for p in pre) and not st.ghost.get("null"):
                    continue
                raise Unsupported(f"loop variable starting at None at {self.where(s)}")
            else:
                super().havoc(st, {(o, f)}, fr, s, None)
        for a, b, side, nosib in sorted(pre, key=repr):
            v = st.heap[a[0]].fields.get(a[1])
            w = st.heap[b[0]].fields.get(b[1])
            if not isinstance(v, Ref) or cl.P in st.heap[v.oid].fields:
                continue
            if side is None:
                st.heap[b[0]] = st.heap[b[0]].with_field(b[1], NONE)
                st.heap[v.oid] = st.heap[v.oid].with_field(cl.P, NONE)
                st.ghost["init"] = {**st.ghost.get("init", {}), (v.oid, "p"): NONE}
            elif isinstance(w, Ref):
                w = cl.opaque(st)
                st.heap[b[0]] = st.heap[b[0]].with_field(b[1], w)
                q = NONE if nosib else cl.opaque(st, parent=w)
                cl.shape(st, w, *((v, q) if side == "l" else (q, v)))
        return st

    def check_relations(self, st, heads, ends, written, fr, rels):
        cl = self.c
        rels = dict(rels or {})
        new = dict(rels)
        first = {p[:2] for p in cl.pairs(st, written)}
        vs = sorted({x for x in written}, key=repr)
        for a in vs:
            for b in vs:
                if a != b:
                    new[("pair", a, b)] = rels.get(("pair", a, b), True) and (a, b) in first and \
                        all((a, b) in {p[:2] for p in cl.pairs(z, written)} for z in ends)
        for o, f in written:
            old = st.heap[o].fields.get(f) if o in st.heap else None
            if not (st.heap[o].kind == "frame" and isinstance(old, Ref) and isinstance(st.heap[old.oid].cls, ClassInfo_)
                    and st.heap[old.oid].cls.is_sub(cl.N)):
                continue
            keep = list(rels.get((o, f), self.KINDS))
            for z in ends:
                v = z.heap[o].fields.get(f) if o in z.heap else None
                if v == NONE:
                    if "find" in keep and target(cl, z, cl.tok(z, "find", old.oid)) != "none":
                        keep.remove("find")
                    continue
                for k in list(keep):
                    want = cl.find(z, cl.tok(z, k, old.oid))
                    got = cl.find(z, cl.tok(z, k, v.oid)) if isinstance(v, Ref) else None
                    if k == "find":
                        got = target(cl, z, got)
                        want = got if got in (target(cl, z, want), target(cl, z, want, True)) else None
                    if got != want:
                        keep.remove(k)
            new[(o, f)] = tuple(keep)
        return new


def target(cl, st, t, alt=False):
    """resolve a search target as far as the facts allow; alt: at an equal key search on in the left subtree"""
    for _ in range(40):
        if t is None:
            return None
        t = cl.find(st, t)
        if not t.startswith("find:"):
            return t
        o = t[5:]
        ob = st.heap.get(o)
        if ob is None:
            return t
        l, r = st.ghost.get("init", {}).get((o, "l")), st.ghost.get("init", {}).get((o, "r"))
        s = st.facts.sign(cl.key - R.atom("key." + o)) if cl.key is not None else frozenset((-1, 0, 1))
        if cl.exact and s == frozenset((0,)):
            return "node:" + o
        if l is None or cl.key is None:
            return t
        if s == frozenset((0,)) and not (alt and isinstance(l, Ref)):
            if isinstance(l, Ref):
                t = cl.tok(st, "last", l.oid)
            elif isinstance(r, Ref):
                t = cl.tok(st, "first", r.oid)
            else:
                t = "node:" + o
        elif s <= frozenset((-1, 0)):
            t = cl.tok(st, "find", l.oid) if isinstance(l, Ref) else "none"
        elif s <= frozenset((1,)):
            t = cl.tok(st, "find", r.oid) if isinstance(r, Ref) else "none"
        else:
            return t
    return t


from .model import ClassInfo as ClassInfo_          # noqa: E402


# -------------------------------------------------------------------- sequences, links, heights
def seq(cl, st, v, which, data=False):
    """in-order items of a subtree, initially or now"""
    if not isinstance(v, Ref):
        return []
    o = v.oid
    ini = st.ghost.get("init", {})
    if which == "init":
        if (o, "l") not in ini:
            return [("T", o)]
        l, r = ini[(o, "l")], ini[(o, "r")]
    else:
        ob = st.heap[o]
        if cl.L not in ob.fields:
            return [("T", o)]
        l, r = ob.fields[cl.L], ob.fields[cl.R_]
        # a subtree nobody touched is its initial self
    item = ckey(st.heap[o].fields.get(cl.D)) if data and which != "init" else (ckey(Num(R.atom("key." + o), "dec")) if data else o)
    return seq(cl, st, l, which, data) + [("N", item)] + seq(cl, st, r, which, data)


def expand(cl, st, items, data=False):
    """expand opaque items that have been materialised meanwhile"""
    out = []
    for k, o in items:
        if k == "T" and (o, "l") in st.ghost.get("init", {}):
            out += expand(cl, st, seq(cl, st, Ref(o), "init", data), data)
        else:
            out.append((k, o))
    return out


def links(cl, st, root, parent):
    """problems with parent links below root"""
    bad = []

    def go(v, par, depth):
        if not isinstance(v, Ref) or depth > 30:
            if depth > 30:
                bad.append("cycle")
            return
        ob = st.heap[v.oid]
        if cl.P in ob.fields and ob.fields[cl.P] != par:
            bad.append(f"parent of {v.oid} is {ob.fields[cl.P]}, must be {par}")
        if cl.P not in ob.fields and par != NONE and isinstance(par, Ref):
            bad.append(f"parent of {v.oid} is not set")
        if cl.L in ob.fields:
            go(ob.fields[cl.L], v, depth + 1)
            go(ob.fields[cl.R_], v, depth + 1)
    go(root, parent, 0)
    return bad


def hval(cl, st, v):
    """the true height of a subtree as (R, [problems]), splitting is left to the caller: uses facts"""
    if not isinstance(v, Ref):
        return R.const(0)
    ob = st.heap[v.oid]
    h = ob.fields.get(cl.H)
    if isinstance(h, (Num, K)) and tonum(h) is not None:
        return tonum(h).r
    return None


def heights(cl, st, root, need_balance=False, skip=()):
    """problems with stored heights (and balance) of the materialised nodes below root"""
    bad = []

    def stored(v):
        return R.const(0) if not isinstance(v, Ref) else hval(cl, st, v)

    def go(v, depth):
        if not isinstance(v, Ref) or depth > 30:
            return
        ob = st.heap[v.oid]
        if cl.L not in ob.fields:
            return
        l, r = ob.fields[cl.L], ob.fields[cl.R_]
        go(l, depth + 1)
        go(r, depth + 1)
        if v.oid in skip:
            return
        hl, hr, h = stored(l), stored(r), hval(cl, st, v)
        if h is None:
            if ob.fields.get(cl.H) == NONE:
                return            # computed on demand
            bad.append(f"height of {v.oid} is {ob.fields.get(cl.H)}")
            return
        if hl is None or hr is None:
            bad.append(f"height of a child of {v.oid} is not a number")
            return
        for (s,), f in cases(st, [hl - hr]):
            want = (hl if s >= 0 else hr) + R.const(1)
            if not f.norm(h - want).is_zero():
                bad.append(f"height of {v.oid} is {f.norm(h)}, must be {f.norm(want)}")
        if need_balance:
            d = st.facts.norm(hl - hr)
            if not (st.facts.sign(d - R.const(1)) <= frozenset((-1, 0)) and st.facts.sign(d + R.const(1)) <= frozenset((0, 1))):
                bad.append(f"subtree heights of {v.oid} differ by {d}")
    go(root, 0)
    return bad


def top(st, cl, r):
    """climb current parents"""
    n = 0
    while isinstance(st.heap[r.oid].fields.get(cl.P), Ref) and n < 40:
        r, n = st.heap[r.oid].fields[cl.P], n + 1
    return r


# -------------------------------------------------------------------- scenarios
class Case:
    """one outcome of an operation"""

    def __init__(self, what, where, cl, I, st, v, **kw):
        self.what, self.where, self.cl, self.I, self.st, self.v = what, where, cl, I, st, v
        self.__dict__.update(kw)


class Ops:
    def __init__(self, prog, rep, depth=2):
        self.p, self.rep, self.depth = prog, rep, depth
        self.n = 0

    def go(self, what, qual, cl, st, fn, args, kwargs=None, **kw):
        """run; yields Case; exceptions become failed obligations"""
        I = TreeInterp(self.p, cl)
        where = where_of(self.p, qual)
        out, exc = I.run(st, fn, args, kwargs)
        self.n += len(out)
        for s, e in exc:
            self.rep.ob(False, "no exception", where, what, e)
        self.rep.interp(I, len(out))
        self.rep.count("loop_heads_generalised", cl.loops)
        for s, v in out:
            yield Case(what, where, cl, I, s, v, **kw)

    def chain(self, cl, st, z, sides, offs, old):
        """ancestors of z: sides of z and of each ancestor, sibling height = old height of the child + off"""
        node, h = z, old
        res = []
        for side, off in zip(sides, offs):
            sh = None if h is None else h + R.const(off)
            if sh is not None and not st.facts.assume(sh, frozenset((1,))):
                return None
            p = cl.opaque(st, parent=NONE)
            sib = cl.opaque(st, parent=p, height=sh)
            if h is not None:
                h = (h if off <= 0 else sh) + R.const(1)
                st.heap[p.oid] = st.heap[p.oid].with_field(cl.H, Num(h, "int"))
            cl.shape(st, p, *((node, sib) if side == "left" else (sib, node)))
            st.heap[p.oid] = st.heap[p.oid].with_field(cl.P, NONE)
            res.append((p, sib, side))
            node = p
        return res

    # ------------------------------------------------------------ rotations
    def rotations(self):
        for name, heavy in (("rotate_left", 1), ("rotate_right", 0)):
            for side in (None, "left", "right"):
                for other in (False, True):
                    cl = TreeClient(self.p, heights=True)
                    cl.closed = True
                    st = State()
                    kids = [cl.opaque(st), cl.opaque(st)]
                    if not other:
                        kids[1 - heavy] = NONE
                    z = cl.plain(st, *kids, height=R.atom(fresh("h")))
                    up = self.chain(cl, st, z, [side] if side else [], [0], None)
                    what = f"{name} of " + (f"a {side} child" if side else "the root") + ("" if other else " with one subtree")
                    yield from self.go(what, "Tree." + name, cl, st, Fn(self.p.cls("Tree").method(name)), [z], z=z, up=up,
                                       stale=[u[0].oid for u in up])

    # ------------------------------------------------------------ balancing
    def unbalanced(self, cl, st):
        """nodes whose balanced subtrees' heights differ by at most two: [(st, z, true height, b)]"""
        out = []
        for b in (-2, -1, 0, 1, 2):
            for low_empty in (False, True):
                s = st.copy()
                low = R.const(0) if low_empty else R.atom("H")
                if not low_empty:
                    s.facts.assume(low, frozenset((1,)))
                hi = low + R.const(abs(b))

                def sub(h):
                    return NONE if s.facts.norm(h).is_zero() else cl.opaque(s, height=h)
                l, r = (sub(hi), sub(low)) if b >= 0 else (sub(low), sub(hi))
                z = cl.plain(s, l, r, height=hi + R.const(1))
                out.append((s, z, hi + R.const(1), b))
        return out

    def balance(self):
        for side in (None, "left", "right"):
            cl = TreeClient(self.p, avl=True)
            cl.closed = True
            for s, z, h, b in self.unbalanced(cl, State()):
                up = self.chain(cl, s, z, [side] if side else [], [0], h)
                yield from self.go(f"balance of a node whose left subtree is higher by {b}" + (f" ({side} child)" if side else ""),
                                   "Tree.balance", cl, s, Fn(self.p.cls("Tree").method("balance")), [z], z=z, up=up,
                                   stale=[u[0].oid for u in up])

    def propagate(self, name="balance_and_propagate"):
        import itertools
        prop = name == "balance_and_propagate"
        owner = "Tree" if prop else "Node"
        for k in range(0, self.depth + 1):
            for sides in itertools.product(("left", "right"), repeat=k):
                for offs in itertools.product((-1, 0, 1), repeat=k):
                    cl0 = TreeClient(self.p, avl=True)
                    cl0.closed = True
                    for i, (s0, z, h, b) in enumerate(self.unbalanced(cl0, State())):
                        if k >= 2 and i not in ((2, 9) if k == 2 and self.depth > 2 else (2,)):
                            continue        # the start's own shape is enumerated at depths 0 and 1
                        for d in ((-1, 0) if abs(b) == 2 else (-1, 0, 1)):
                            if k == 0 and d:
                                continue
                            s = s0.copy()
                            cl = TreeClient(self.p, avl=True)
                            cl.closed = True
                            old = h + R.const(d)
                            if not s.facts.assume(old, frozenset((1,))):
                                continue
                            up = self.chain(cl, s, z, sides, offs, old)
                            if up is None:
                                continue
                            s.heap[z.oid] = s.heap[z.oid].with_field(cl.H, Num(old, "int"))
                            m = self.p.cls(owner).method(name)
                            fn = Fn(m) if prop else Bound(Fn(m), z)
                            what = (f"{name} from a node at depth {k} whose left subtree is higher by {b}" if prop
                                    else f"{name} from a node at depth {k}")
                            yield from self.go(what, f"{owner}.{name}", cl, s, fn, [z] if prop else [],
                                               z=z, up=up, stale=[])
        if prop:
            # the site event: a leaf becomes a subtree of height 3
            for k in range(1, self.depth + 1):
                for sides in itertools.product(("left", "right"), repeat=k):
                    for sib in (1, 2):
                        for offs in itertools.product((-1, 0, 1), repeat=k - 1):
                            cl = TreeClient(self.p, avl=True)
                            cl.closed = True
                            s = State()
                            one = R.const(1)

                            def leaf():
                                return cl.plain(s, NONE, NONE, height=one)
                            z = cl.plain(s, leaf(), cl.plain(s, leaf(), leaf(), height=R.const(2)), height=R.const(3))
                            up = self.chain(cl, s, z, sides, (sib - 1,) + offs, one)
                            if up is None:
                                continue
                            fn = Fn(self.p.cls("Tree").method(name))
                            yield from self.go(f"{name} after a leaf at depth {k} was replaced by three", f"Tree.{name}", cl, s, fn,
                                               [z], z=z, up=up, stale=[])

    # ------------------------------------------------------------ replacement
    def replace(self):
        import itertools
        m = self.p.cls("Node").method("replace_leaf")
        if m is None:
            raise Unsupported("anchor Node.replace_leaf not found")
        for k in range(0, self.depth + 1):
            for sides in itertools.product(("left", "right"), repeat=k):
                for kind in ("new", "left child", "right child", "nothing"):
                    cl = TreeClient(self.p, heights=True)
                    cl.closed = True
                    s = State()
                    if kind in ("new", "nothing"):
                        x = cl.opaque(s, parent=NONE)
                    else:
                        x = cl.plain(s, cl.opaque(s), cl.opaque(s))
                    rep = (cl.opaque(s, parent=NONE) if kind == "new" else NONE if kind == "nothing" else
                           s.heap[x.oid].fields[cl.L if kind == "left child" else cl.R_])
                    up = self.chain(cl, s, x, sides, [0] * k, None)
                    root = up[-1][0] if up else x
                    yield from self.go(f"replacing a node at depth {k} by {'its ' if 'child' in kind else ''}{kind}", "Node.replace_leaf",
                                       cl, s, Bound(Fn(m), x), [rep, root], x=x, rep_=rep, up=up, root=root, stale=[])

    # ------------------------------------------------------------ neighbours and searches
    def neighbours(self):
        for name in ("successor", "predecessor"):
            g = self.p.cls("Node").getter(name) or self.p.cls("Node").method(name)
            if g is None:
                raise Unsupported(f"anchor Node.{name} not found")
            cl = TreeClient(self.p, full=True)
            st = State()
            x = cl.opaque(st)
            cl.shape(st, x, NONE, NONE)
            self.recur(cl, "minimum", "first")
            self.recur(cl, "maximum", "last")
            yield from self.go(f"{name} of an arc", f"Node.{name}", cl, st, Fn(g), [x], x=x, kind=name)
            cl = TreeClient(self.p, full=True)
            st = State()
            kids = [cl.opaque(st), cl.opaque(st)]
            x = cl.plain(st, *kids)
            self.recur(cl, "minimum", "first")
            self.recur(cl, "maximum", "last")
            yield from self.go(f"{name} of a breakpoint", f"Node.{name}", cl, st, Fn(g), [x], x=x, kind=name, kids=kids)

    def recur(self, cl, name, tok):
        """contract of a recursive minimum / maximum"""
        m = self.p.cls("Node").method(name)
        if m is None:
            return

        def contract(I, st, a, kw, node):
            n = cl.opaque(st, tokens={tok: cl.find(st, cl.tok(st, tok, a[0].oid))})
            out = []
            for s in cl.materialise(st, n):
                if s.heap[n.oid].fields[cl.L if tok == "first" else cl.R_] == NONE:
                    out.append((s, n))
            return out
        cl.contracts[id(m.node)] = contract

    def extremes(self):
        for name, tok in (("minimum", "first"), ("maximum", "last")):
            m = self.p.cls("Node").method(name)
            if m is None:
                continue
            cl = TreeClient(self.p)
            st = State()
            x = cl.opaque(st)
            self.recur(cl, name, tok)
            yield from self.go(f"{name} of a subtree", f"Node.{name}", cl, st, Bound(Fn(m), x), [], x=x, tok=tok)

    def leaves(self):
        """the leaves of every tree of up to four nodes (whole trees, nothing opaque)"""
        m = self.p.cls("Tree").method("get_leaves")
        if m is None:
            return

        def shapes(n):
            if n == 0:
                yield None
                return
            for i in range(n):
                for l in shapes(i):
                    for r in shapes(n - 1 - i):
                        yield l, r
        for n in range(1, 5):
            for sh in shapes(n):
                cl = TreeClient(self.p)
                cl.closed = True
                st = State()
                want = []

                def build(t):
                    if t is None:
                        return NONE
                    l = build(t[0])
                    at = len(want)
                    r = build(t[1])
                    x = cl.plain(st, l, r)
                    if t == (None, None):
                        want.insert(at, x)
                    return x
                x = build(sh)
                yield from self.go(f"the leaves of a tree of {n} nodes", "Tree.get_leaves", cl, st, Fn(m), [x], x=x, want=want)

    def find_leaf(self):
        m = self.p.cls("Tree").method("find_leaf_node")
        if m is None:
            raise Unsupported("anchor Tree.find_leaf_node not found")
        cl = TreeClient(self.p, full=True)
        st = State()
        x = cl.opaque(st, parent=NONE)
        cl.key = R.atom("key")
        self.recur(cl, "minimum", "first")
        self.recur(cl, "maximum", "last")

        def contract(I, st, a, kw, node):
            if a[0] == NONE:
                return [(st, NONE)]
            n = cl.opaque(st, tokens={"find": cl.find(st, cl.tok(st, "find", a[0].oid))})
            cl.shape(st, n, NONE, NONE)
            return [(st, n)]
        cl.contracts[id(m.node)] = contract
        yield from self.go("search for the arc above a point", "Tree.find_leaf_node", cl, st, Fn(m), [x], {"key": num("key")}, x=x)

    def find_key(self):
        m = self.p.cls("Tree").method("find")
        if m is None:
            return
        cl = TreeClient(self.p)
        cl.exact = True
        st = State()
        x = cl.opaque(st, parent=NONE)
        cl.key = R.atom("key")

        def contract(I, st, a, kw, node):
            if a[0] == NONE:
                return [(st, NONE)]
            s2 = st.copy()
            t = cl.find(st, cl.tok(st, "find", a[0].oid))
            n = cl.opaque(st)
            cl.bindtok(st, t, "node:" + n.oid)
            cl.bindtok(s2, t, "none")
            return [(st, n), (s2, NONE)]
        cl.contracts[id(m.node)] = contract
        yield from self.go("search for a key", "Tree.find", cl, st, Fn(m), [x], {"key": num("key")}, x=x)
        st = State()
        yield from self.go("search for a key in an empty tree", "Tree.find", cl, st, Fn(m), [NONE], {"key": num("key")}, x=NONE)

    def find_value(self):
        m = self.p.cls("Tree").method("find_value")
        if m is None:
            raise Unsupported("anchor Tree.find_value not found")
        for empty in (False, True):
            cl = TreeClient(self.p)
            st = State()
            x = NONE if empty else cl.opaque(st, parent=NONE)
            q = cl.opaque(st, parent=NONE)
            cl.shape(st, q, NONE, NONE)

            def contract(I, st, a, kw, node):
                if a[0] == NONE:
                    return [(st, NONE)]
                s2 = st.copy()
                st.ghost["searched"] = st.ghost.get("searched", frozenset()) | {a[0].oid}
                n = cl.opaque(s2)
                s2.ghost["member"] = s2.ghost.get("member", frozenset()) | {n.oid}
                return [(st, NONE), (s2, n)]
            cl.contracts[id(m.node)] = contract
            yield from self.go("search for an item" + (" in an empty tree" if empty else ""), "Tree.find_value", cl, st, Fn(m),
                               [x, q, Opq("compare", "predicate")], {}, x=x, q=q)

    # ------------------------------------------------------------ insertion and deletion
    def insert(self):
        m = self.p.cls("Tree").method("insert")
        if m is None:
            return
        for empty in (False, True):
            cl = TreeClient(self.p, avl=True)
            st = State()
            x = NONE if empty else cl.opaque(st, parent=NONE)
            st.ghost["h00"] = hval(cl, st, x)
            n = cl.opaque(st, parent=NONE, height=R.const(1))
            cl.shape(st, n, NONE, NONE)

            def contract(I, st, a, kw, node):
                if a[0] == NONE:
                    return [(st, a[1])]
                t = a[0]
                h = hval(cl, st, t)
                out = []
                for d in (0, 1):
                    s = st.copy()
                    u = cl.opaque(s, height=h + R.const(d))
                    s.ghost["ins"] = {**s.ghost.get("ins", {}), t.oid: u.oid}
                    out.append((s, u))
                return out
            cl.contracts[id(m.node)] = contract
            yield from self.go("inserting a node" + (" into an empty tree" if empty else ""), "Tree.insert", cl, st, Fn(m), [x, n], {},
                               x=x, node=n)

    def delete(self):
        m = self.p.cls("Tree").method("delete")
        if m is None:
            return
        for empty in (False, True):
            cl = TreeClient(self.p, avl=True)
            st = State()
            x = NONE if empty else cl.opaque(st, parent=NONE)
            st.ghost["h00"] = hval(cl, st, x)
            self.recur(cl, "minimum", "first")
            key = num("key")

            def contract(I, st, a, kw, node):
                if a[0] == NONE:
                    return [(st, NONE)]
                t = a[0]
                h = hval(cl, st, t)
                out = []
                k = r_of(a[1])
                for d in (0, -1):
                    s = st.copy()
                    if d:
                        s3 = s.copy()
                        if s3.facts.assume(h - R.const(1), frozenset((0,))):
                            s3.ghost["del"] = {**s3.ghost.get("del", {}), t.oid: (k, None)}
                            out.append((s3, NONE))
                        if not s.facts.assume(h - R.const(1), frozenset((1,))):
                            continue
                    u = cl.opaque(s, height=h + R.const(d))
                    s.ghost["del"] = {**s.ghost.get("del", {}), t.oid: (k, u.oid)}
                    out.append((s, u))
                return out
            cl.contracts[id(m.node)] = contract
            yield from self.go("deleting a key" + (" from an empty tree" if empty else ""), "Tree.delete", cl, st, Fn(m), [x, key], {},
                               x=x, key=R.atom("key"))
