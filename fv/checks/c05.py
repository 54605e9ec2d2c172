"""C05 - the caller's data is neither modified nor captured."""
from ..model import rel
from ..scen import Run, Draw, POLYS

RULE = ("Points-to analysis of a full run for each kind of bounding region: no reachable write hits the point list, "
        "its pairs or the region's corner list given by the caller, none of those objects is reachable from the diagram "
        "afterwards, and the collections handed out by queries are freshly allocated and not kept.")


def run(prog, rep):
    for poly in POLYS:
        r = Run(prog, poly)
        O = r.O
        for f in O.functions:
            rep.functions.add((rel(f.module.path), f.qual))
        rep.count("calling_contexts", len(O.frames))
        rep.count("heap_writes_classified", len(O.writes))
        bad = {}
        for (loc, field, where), (kind, fn) in O.writes.items():
            if loc in r.caller:
                bad[where] = kind
        for f in sorted({x[0] for x in O.frames.values()}, key=lambda f: f.where):
            mine = {w: k for w, k in bad.items() if w.split(" ", 1)[1] == f.qual}
            rep.ob(not mine, "caller data not modified", next(iter(mine), f.qual),
                   f"{f.qual} does not write to the caller's lists", str(mine))
        kept = r.caller & O.reach({r.v, r.poly})
        holders = [f"{O.info[o]['cls'].name if o in O.info and O.info[o]['cls'] else o[0]}.{f}"
                   for (o, f), vs in O.heap.items() if vs & kept and o not in r.caller and o[0] == "O"]
        rep.ob(not kept, "caller data not captured", holders[0] if holders else f"run with {poly}",
               "no list given by the caller is reachable from the diagram after the run", holders)
        inside = O.reach({r.v, r.poly})
        for (cn, name, f), locs in r.queries.items():
            shared = {l for l in locs if l in inside}
            rep.ob(not shared, "query result is a fresh collection", f"{rel(f.module.path)} {f.qual}",
                   f"{cn}.{name} hands out a collection nobody else holds",
                   "the returned collection is stored inside the diagram")
    d = Draw(prog)
    bad = {}
    for (loc, field, where), (kind, fn) in d.O.writes.items():
        if loc in d.caller:
            bad[where] = kind
    for f in sorted({x[0] for x in d.O.frames.values()}, key=lambda f: f.where):
        mine = {w: k for w, k in bad.items() if w.split(" ", 1)[1] == f.qual}
        rep.ob(not mine, "settings not modified", next(iter(mine), f.qual),
               f"{f.qual} does not write to settings or lists given to an observer or a plot", str(mine))
    rep.count("calling_contexts", len(d.O.frames))
    rep.assume("numbers are immutable", "functions of the standard library and numpy keep no reference to their "
               "arguments")
