"""C13 - the beach-line tree is balanced and its heights are right."""
from ..trees import *
from .. import beach

RULE = ("Shape analysis with symbolic heights: for every combination of heights of the opaque subtrees, after the operation each "
        "node's stored height is 1 + the larger of its children's, and after rebalancing the subtrees' heights differ by at most "
        "one; after every event rebalancing must have run from the place of change, on every path of the handlers, and its result "
        "must be the tree's root.")


def run(prog, rep):
    ops = Ops(prog, rep, depth=3 if rep.tier == "thorough" else 2)

    def right(c, root, bal, what, skip=()):
        cl, st = c.cl, c.st
        if root == NONE and what == "none":
            return
        if not isinstance(root, Ref):
            rep.ob(False, "heights", c.where, c.what, f"returns {root}")
            return
        bad = heights(cl, st, root, False, skip)
        rep.ob(not bad, "heights", c.where, c.what, bad)
        if bal:
            bad = heights(cl, st, root, True, skip)
            rep.ob(not bad, "balance", c.where, c.what, bad)
    def part1():
        for c in ops.rotations():
            right(c, c.v, False, "")

    def part2():
        for c in ops.balance():
            right(c, c.v, True, "")

    def part3():
        for c in ops.propagate():
            right(c, c.v, True, "")

    def part4():
        for c in ops.propagate("update_heights"):
            right(c, c.up[-1][0] if c.up else c.z, False, "")

    def part5():
        for c in ops.replace():
            right(c, c.v, False, "none")

    def part6():
        for c in ops.insert():
            right(c, c.v, True, "")
            if isinstance(c.v, Ref) and c.x != NONE:
                grown(rep, c, (0, 1))

    def part7():
        for c in ops.delete():
            right(c, c.v, True, "none")
            if c.x != NONE:
                grown(rep, c, (-1, 0))

    rep.each(part1, part2, part3, part4, part5, part6, part7, lambda: beach.run(prog, rep, "C13"))
    rep.count("outcomes", ops.n)
    rep.assume("before an insertion, a deletion or an event the tree is balanced and its heights are right",
               f"ancestor chains up to {ops.depth} levels are enumerated for operations that climb")



def grown(rep, c, by):
    """the contract used for the recursive call: the height changes by at most one"""
    cl, st = c.cl, c.st
    h = hval(cl, st, c.v)
    h0 = st.ghost["h00"]
    if h is None:
        return
    lo, hi = (R.const(b) for b in by)
    d = st.facts.norm(h - h0)
    ok = st.facts.sign(d - lo) <= frozenset((0, 1)) and st.facts.sign(d - hi) <= frozenset((-1, 0))
    rep.ob(ok, "balance", c.where, c.what + f" changes the height by {by[0]}..{by[1]}", f"by {d}")
