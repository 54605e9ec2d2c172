"""C06 - no hidden state shared between diagrams."""
from ..memo import shared_results
from ..model import rel
from ..scen import Run, Draw, Everything, POLYS

RULE = ("Points-to analysis over a full run, every drawing entry point and every function taken alone: no write may hit "
        "an object allocated by a module-level statement, a class attribute or a default argument, and no class or "
        "module attribute is assigned by a function; no function keeps results in a process-wide cache.")


def run(prog, rep):
    engines = [Run(prog, p).O for p in POLYS] + [Draw(prog).O, Everything(prog).O]
    bad = {}
    for O in engines:
        rep.count("calling_contexts", len(O.frames))
        rep.count("heap_writes_classified", len(O.writes))
        rep.count("shared_objects_tracked", len(O.shared_kind))
        for (loc, field, where), (kind, fn) in O.writes.items():
            if loc in O.shared_kind:
                bad[where] = f"{kind} on {O.shared_kind[loc]}"
            elif loc[0] in ("C", "M"):
                nm = loc[1].name if loc[0] == "C" else loc[1]
                bad[where] = f"{kind} {nm}.{field}"
    fs = sorted({f for O in engines for f in O.functions}, key=lambda f: f.where)
    for f in fs:
        rep.functions.add((rel(f.module.path), f.qual))
        mine = {w: k for w, k in bad.items() if w.split(" ", 1)[1] == f.qual and w.startswith(rel(f.module.path))}
        rep.ob(not mine, "no write to shared state", next(iter(mine), f"{rel(f.module.path)} {f.qual}"),
               f"{f.qual} writes only to objects of the instance at hand", str(mine))
    for where, fn, bad in shared_results(prog):
        rep.ob(bad is None, "no process-wide cache of object results", where, f"{fn} does not remember results across diagrams", bad)
    rep.assume("effects of third-party libraries (open figures of pyplot) are outside the package")
