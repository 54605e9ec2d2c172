"""C12 - the beach line stays in order through every tree operation."""
from ..trees import *
from .. import beach

RULE = ("Shape analysis of the tree operations on symbolic trees (opaque subtrees of any shape, any ancestors): the in-order "
        "sequence after the operation must be the one before, apart from the item added or removed; every child must point back "
        "to its parent; neighbour and search loops, analysed through a generic iteration, must return the symbolic first, last or "
        "target item; recursive calls are replaced by the contract being proved.")


def run(prog, rep):
    ops = Ops(prog, rep, depth=2 if rep.tier == "thorough" else 1)
    def part1():
        for c in list(ops.rotations()) + list(ops.balance()):
            in_place(rep, c)

    def part2():
        for c in ops.propagate():
            in_place(rep, c, whole=True)

    def part3():
        for c in ops.replace():
            replaced(rep, c)

    def part4():
        for c in ops.neighbours():
            neighbour(rep, c)

    def part5():
        for c in ops.extremes():
            t = c.cl.find(c.st, c.cl.tok(c.st, c.tok, c.x.oid))
            rep.ob(isinstance(c.v, Ref) and t == "node:" + c.v.oid, "extreme item", c.where, c.what, f"returns {c.v}, must be {t}")

    def part6():
        for c in ops.find_leaf():
            t = c.cl.tok(c.st, "find", c.x.oid)
            ok = isinstance(c.v, Ref) and any(target(c.cl, c.st, t, alt) == "node:" + c.v.oid for alt in (False, True))
            rep.ob(ok, "search path", c.where, "the leaf reached lies between the keys that enclose the search key (the left one if equal)",
                   f"returns {c.v}, must be {target(c.cl, c.st, t)}")

    def part7():
        for c in ops.find_key():
            t = "none" if c.x == NONE else target(c.cl, c.st, c.cl.tok(c.st, "find", c.x.oid))
            got = "none" if c.v == NONE else "node:" + c.v.oid if isinstance(c.v, Ref) else str(c.v)
            rep.ob(got == t, "search path", c.where, c.what + ": an item with that key, or None when the search path ends", f"returns {got}, must be {t}")

    def part8():
        for c in ops.find_value():
            found(rep, c)

    def part9():
        for c in ops.insert():
            inserted(rep, c)

    def part10():
        for c in ops.delete():
            deleted(rep, c)

    def part11():
        for c in ops.leaves():
            got = [z for z in c.st.obj(c.v).fields.get("segs", ())] if isinstance(c.v, Ref) else c.v
            rep.ob(got == c.want, "leaves", c.where, c.what + ": each of them once, from left to right", f"returns {got}, must be {c.want}")

    rep.each(part1, part2, part3, part4, part5, part6, part7, part8, part9, part10, part11, lambda: beach.run(prog, rep, "C12"))
    rep.count("outcomes", ops.n)
    rep.assume("keys of a subtree's items are arbitrary numbers; keys do not change during an operation",
               f"ancestor chains up to {ops.depth} levels are enumerated for operations that climb; loops that walk through a tree are "
               "analysed for any depth")



def text(xs):
    return " ".join(str(o) for _, o in xs)


def in_place(rep, c, whole=False):
    """the subtree (or whole tree) keeps its items; the new root hangs where the old one did"""
    cl, st = c.cl, c.st
    if not isinstance(c.v, Ref):
        rep.ob(False, "sequence kept", c.where, c.what, f"returns {c.v}")
        return
    ini = c.up[-1][0] if whole and c.up else c.z
    want = expand(cl, st, seq(cl, st, ini, "init"))
    got = expand(cl, st, seq(cl, st, c.v, "now"))
    rep.ob(got == want, "sequence kept", c.where, c.what, f"in order: {text(got)}; must be {text(want)}")
    par = NONE
    if c.up and not whole:
        par, sib, side = c.up[0]
        ch = st.heap[par.oid].fields[cl.L if side == "left" else cl.R_]
        oc = st.heap[par.oid].fields[cl.R_ if side == "left" else cl.L]
        rep.ob(ch == c.v and oc == sib, "parent points to the new subtree", c.where, c.what, f"{side} child {ch}, other child {oc}")
    bad = links(cl, st, c.v, par)
    rep.ob(not bad, "parent links", c.where, c.what, bad)


def replaced(rep, c):
    cl, st = c.cl, c.st
    want = []
    old = seq(cl, st, c.x, "init")
    n = len(old)
    full = seq(cl, st, c.root, "init")
    i = next(i for i in range(len(full)) if full[i:i + n] == old)
    want = expand(cl, st, full[:i] + seq(cl, st, c.rep_, "init") + full[i + n:])
    if c.v == NONE:
        rep.ob(not want, "replacement", c.where, c.what, "returns None")
        return
    if not isinstance(c.v, Ref):
        rep.ob(False, "replacement", c.where, c.what, f"returns {c.v}")
        return
    got = expand(cl, st, seq(cl, st, c.v, "now"))
    rep.ob(got == want, "replacement", c.where, c.what, f"in order: {text(got)}; must be {text(want)}")
    bad = links(cl, st, c.v, NONE)
    rep.ob(not bad, "parent links", c.where, c.what, bad)


def neighbour(rep, c):
    cl, st = c.cl, c.st
    if getattr(c, "kids", None):
        tok, kid = ("first", c.kids[1]) if c.kind == "successor" else ("last", c.kids[0])
        want = cl.find(st, cl.tok(st, tok, kid.oid))
        rep.ob(isinstance(c.v, Ref) and want == "node:" + c.v.oid, "neighbouring arc", c.where,
               f"the {c.kind} of a breakpoint is the arc next to it on that side", f"returns {c.v}, must be {want}")
        return
    near, far, mine = ("last", "first", cl.R_) if c.kind == "successor" else ("first", "last", cl.L)
    a, b = ("l", "r") if c.kind == "successor" else ("r", "l")
    ini = st.ghost.get("init", {})
    me = "node:" + c.x.oid
    want = None
    nodes = {o for o, _ in ini}
    for o in nodes:
        l, r = ini.get((o, a)), ini.get((o, b))
        if isinstance(l, Ref) and isinstance(r, Ref) and cl.find(st, cl.tok(st, near, l.oid)) == me:
            want = cl.find(st, cl.tok(st, far, r.oid))
    if want is None:
        # the arc ends the beach line if some subtree ending in it is the whole tree
        if any(ini.get((o, "p")) == NONE and cl.find(st, cl.tok(st, near, o)) == me for o in nodes):
            want = "none"
    got = "none" if c.v == NONE else "node:" + c.v.oid if isinstance(c.v, Ref) else str(c.v)
    rep.ob(want is not None and got == want, "neighbouring arc", c.where, f"the {c.kind} of an arc is the next arc on that side, or None at the end",
           f"returns {got}, must be {want}")


def found(rep, c):
    cl, st = c.cl, c.st
    what = c.what
    if isinstance(c.v, Ref):
        d = st.get(c.v, cl.D)
        t = st.truth.get(("pred", "compare", ckey(d), ckey(st.get(c.q, cl.D))))
        rep.ob(c.v.oid in st.ghost.get("member", ()) or t is True, "found item matches", c.where, what, f"returns {c.v} without a match")
        return
    rep.ob(c.v == NONE, "found item matches", c.where, what, f"returns {c.v}")
    if c.x == NONE:
        return
    ini = st.ghost.get("init", {})
    for side in "lr":
        k = ini.get((c.x.oid, side))
        ok = k == NONE or (isinstance(k, Ref) and k.oid in st.ghost.get("searched", ()))
        rep.ob(ok, "search is complete", c.where, "when nothing is found both subtrees were searched", f"{side} subtree skipped")
    s = st.facts.sign(R.atom("key." + c.x.oid) - R.atom("key." + c.q.oid))
    t = st.truth.get(("pred", "compare", ckey(st.get(c.x, cl.D)), ckey(st.get(c.q, cl.D))))
    rep.ob(0 not in s or t is False, "search is complete", c.where, "an item with the searched key that matches is not passed over",
           "the node itself was not compared")


def inserted(rep, c):
    cl, st = c.cl, c.st
    new = ("N", c.node.oid)
    if not isinstance(c.v, Ref):
        rep.ob(False, "insertion", c.where, c.what, f"returns {c.v}")
        return
    got = expand(cl, st, seq(cl, st, c.v, "now"))
    if c.x == NONE:
        rep.ob(got == [new], "insertion", c.where, c.what, text(got))
        return
    ini = st.ghost["init"]
    l, r = ini[(c.x.oid, "l")], ini[(c.x.oid, "r")]
    ins = st.ghost.get("ins", {})

    def plus(t):
        return [new] if t == NONE else expand(cl, st, [("T", ins.get(t.oid, "?"))])
    a = plus(l) + [("N", c.x.oid)] + expand(cl, st, seq(cl, st, r, "init"))
    b = expand(cl, st, seq(cl, st, l, "init")) + [("N", c.x.oid)] + plus(r)
    s = st.facts.sign(R.atom("key." + c.node.oid) - R.atom("key." + c.x.oid))
    ok = (got == a and s <= frozenset((-1, 0))) or (got == b and s <= frozenset((0, 1)))
    rep.ob(ok, "insertion", c.where, c.what, f"in order: {text(got)}")
    bad = links(cl, st, c.v, st.heap[c.v.oid].fields.get(cl.P, NONE))
    rep.ob(not bad, "parent links", c.where, c.what, bad)


def deleted(rep, c):
    cl, st = c.cl, c.st
    if c.x == NONE:
        rep.ob(c.v == NONE, "deletion", c.where, c.what, c.v)
        return
    if (c.x.oid, "l") not in st.ghost.get("init", {}):
        rep.ob(False, "deletion", c.where, c.what, "the node was not examined")
        return
    ini = st.ghost["init"]
    dl = st.ghost.get("del", {})
    l, r = ini[(c.x.oid, "l")], ini[(c.x.oid, "r")]

    def items(t):
        return [] if t == NONE else [("T", t.oid)]

    def minus(t):
        if t == NONE:
            return []
        k, u = dl.get(t.oid, ("?", "?"))
        if u is None:
            return []
        return [("D", t.oid, u)] if k == c.key or (hasattr(k, "atoms") and st.facts.norm(k - c.key).is_zero()) else [("?", t.oid)]
    me = [("N", st.facts.norm(R.atom("key." + c.x.oid)).key())]
    s = st.facts.sign(c.key - R.atom("key." + c.x.oid))
    if s == frozenset((0,)):
        want = [items(l) + items(r)]
    elif s == frozenset((-1,)):
        want = [minus(l) + me + items(r)]
    elif s == frozenset((1,)):
        want = [items(l) + me + minus(r)]
    else:
        want = []
    want = [ex2(cl, st, w) for w in want]
    got = ex2(cl, st, now(cl, st, c.v, r, dl))
    rep.ob(got in want, "deletion", c.where, c.what, f"in order: {got}; must be {want}")
    if isinstance(c.v, Ref):
        bad = links(cl, st, c.v, st.heap[c.v.oid].fields.get(cl.P, NONE))
        rep.ob(not bad, "parent links", c.where, c.what, bad)


def now(cl, st, v, r, dl):
    """data of the subtree now; 'first item of R, then R without it' is R"""
    raw = []

    def walk(v):
        if not isinstance(v, Ref):
            return
        ob = st.heap[v.oid]
        if cl.L not in ob.fields:
            raw.append(("T", v.oid))
            return
        walk(ob.fields[cl.L])
        d = ob.fields.get(cl.D)
        raw.append(("N", st.facts.norm(d.r).key() if isinstance(d, Num) else repr(d), v.oid))
        walk(ob.fields[cl.R_])
    walk(v)
    # a subtree that is the result of a deletion is shown as such
    back = {u: t for t, (k, u) in dl.items() if u}
    out = []
    i = 0
    exp = {}
    for u, t in back.items():
        exp[u] = ex1(cl, st, u)
    while i < len(raw):
        for u, t in back.items():
            e = exp[u]
            if raw_key(raw[i:i + len(e)]) == raw_key(e):
                out.append(("D", t, u))
                i += len(e)
                break
        else:
            out.append(raw[i][:2])
            i += 1
    # joined pairs: the first item of R followed by R without that item
    if isinstance(r, Ref) and r.oid in dl:
        k, u = dl[r.oid]
        first = cl.find(st, cl.tok(st, "first", r.oid))
        fk = st.facts.norm(R.atom("key." + first[5:])).key() if first.startswith("node:") else None
        if fk is not None and hasattr(k, "atoms") and st.facts.norm(k).key() == fk:
            res, i = [], 0
            while i < len(out):
                if out[i] == ("N", fk) and (u is None or (i + 1 < len(out) and out[i + 1] == ("D", r.oid, u))):
                    res.append(("T", r.oid))
                    i += 1 if u is None else 2
                else:
                    res.append(out[i])
                    i += 1
            out = res
    return out


def ex1(cl, st, o):
    ini = st.ghost.get("init", {})
    if (o, "l") not in ini:
        return [("T", o)]
    l, r = ini[(o, "l")], ini[(o, "r")]
    return (ex1(cl, st, l.oid) if isinstance(l, Ref) else []) + [("N", st.facts.norm(R.atom("key." + o)).key(), o)] + \
        (ex1(cl, st, r.oid) if isinstance(r, Ref) else [])


def raw_key(xs):
    return [x[:2] for x in xs]


def ex2(cl, st, xs):
    """expand opaque originals into their materialised parts"""
    out = []
    for x in xs:
        if x[0] == "T":
            out += raw_key(ex1(cl, st, x[1]))
        else:
            out.append(x)
    return out
