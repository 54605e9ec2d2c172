"""C07 - every run starts from a clean state."""
from ..memo import stale_properties
from ..model import rel
from ..scen import Run, POLYS

RULE = ("Reset-before-read dataflow over a run that follows any history: every field of an object that exists before "
        "the run (diagram, bounding region and what they refer to) which a run may change, directly or through the "
        "container it holds, is on every path assigned afresh before the run reads it.")


def run(prog, rep):
    for poly in POLYS:
        r = Run(prog, poly)
        O = r.O
        for f in O.functions:
            rep.functions.add((rel(f.module.path), f.qual))
        rep.count("calling_contexts", len(O.frames))
        stored = {(l, f) for (l, f, w) in r.run_writes if l in r.pre and f != "[]"}
        touched = {l for (l, f, w) in r.run_writes if l in r.pre and f == "[]"}
        # fields assigned before any read: their old contents are dead
        dead = {k for k in stored if k[0] in O.tracked and k not in r.run_early}
        live, todo = set(), [r.v]
        while todo:
            l = todo.pop()
            if l in live:
                continue
            live.add(l)
            for (o, f), vs in O.heap.items():
                if o == l and (o, f) not in dead:
                    todo += [x for x in vs if x in r.pre]
        fields = sorted({k for k in stored if k[0] in live} |
                        {(o, f) for (o, f), vs in O.heap.items() if o in live and o in r.pre and vs & touched & live
                         and f != "[]"}, key=str)
        rep.count("persistent_fields_changed_by_a_run", len(fields))
        rep.count("run_writes_examined", len(r.run_writes))
        for (l, f) in fields:
            c = O.info[l]["cls"]
            nm = c.name if c is not None else O.info[l]["kind"]
            w = r.run_early.get((l, f))
            ws = [x[2] for x in r.run_writes if x[0] == l and x[1] == f] + \
                 [x[2] for x in r.run_writes if x[0] in O.heap.get((l, f), ()) and x[1] == "[]"]
            rep.ob(w is None, "reset before read", w or (sorted(ws)[0] if ws else nm),
                   f"{nm}.{f} is assigned afresh before a run ({poly}) reads it",
                   f"read at {w} while it can still hold what an earlier run left; changed at {sorted(set(ws))[:4]}")
        for l in sorted(touched & live, key=str):
            holders = [k for k, vs in O.heap.items() if l in vs and k[0] in live]
            rep.ob(all(k in fields or k[1] == "[]" for k in holders), "reset before read", poly,
                   "every container changed in place is held by an examined field", holders)
    for f, names in stale_properties(prog):
        rep.ob(not names, "no stale value kept", f.where, f"{f.qual} keeps only what never changes", names)
    rep.assume("observers, and the observer lists themselves, are configuration and may persist",
               "an early return of the run by an exception is not a completed run")
