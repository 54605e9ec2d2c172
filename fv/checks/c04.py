"""C04 - observing and drawing leave the diagram alone."""
import ast

from ..model import rel, FuncInfo
from ..scen import Run, Draw, DIAG, OBS, POLYS

RULE = ("Points-to/effect analysis of every observer, every drawing method and every read-only query, applied to an "
        "abstract diagram: no heap write reachable from them may hit an object of the diagram.  For the run itself, no "
        "branch whose test depends on the list of observers may do anything but notify.")


def run(prog, rep):
    d = Draw(prog)
    O = d.O
    hits = {}
    for (loc, field, where), (kind, fn) in O.writes.items():
        if loc == DIAG:
            hits[where] = f"{kind} on {field}"
    for f in sorted(O.functions, key=lambda f: f.where):
        rep.functions.add((rel(f.module.path), f.qual))
        mine = {w: h for w, h in hits.items() if w.split(" ", 1)[1] == f.qual and w.startswith(rel(f.module.path))}
        where = next(iter(mine), f"{rel(f.module.path)} {f.qual}")
        rep.ob(not mine, "no write to the diagram", where,
               f"{f.qual} does not modify the diagram when reached from an observer, a plot or a query",
               "; ".join(f"{h} at {w}" for w, h in mine.items()))
    rep.count("entry_points", len(d.entries))
    rep.count("heap_writes_classified", len(O.writes))
    rep.count("calling_contexts", len(O.frames))
    # the run does not depend on who is watching
    r = Run(prog, "Polygon")
    O = r.O
    lists = {l for l in O.info if OBS in O.heap.get((l, "[]"), ())}
    watch = lists | {OBS}
    subj = prog.cls("Subject")
    n = 0
    for frame, (f, _) in list(O.frames.items()):
        if f.cls is subj or (f.cls is not None and f.qual.split(".")[-1] == "__init__"):
            continue
        for node in ast.walk(f.node):
            tests = []
            if isinstance(node, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                tests = [node.test]
            elif isinstance(node, ast.comprehension):
                tests = node.ifs
            for t in tests:
                n += 1
                dep = any(watch & O.expr_locs.get((frame, id(x)), frozenset()) for x in ast.walk(t)
                          if isinstance(x, ast.expr))
                ok = not dep or (isinstance(node, ast.If) and
                                 only_notifies(O, frame, node.body, subj) and only_notifies(O, frame, node.orelse, subj))
                if dep:
                    rep.ob(ok, "run independent of observers", f"{rel(f.module.path)}:{t.lineno} {f.qual}",
                           f"test at {f.qual} depends on the attached observers",
                           "the branch does more than notify")
    rep.ob(True, "run independent of observers", "Algorithm.create_diagram", f"tests examined", n)
    rep.count("branch_tests_examined", n)
    rep.assume("user callbacks and third-party drawing libraries do not modify the objects they are given",
               "attribute values read from an abstract diagram are again part of the diagram")


def only_notifies(O, frame, body, subj):
    for s in body:
        if isinstance(s, ast.Pass):
            continue
        if not isinstance(s, ast.Expr) or not isinstance(s.value, ast.Call):
            return False
        cs = O.calls.get((frame, id(s.value)), set())
        if not cs or any(c.cls is not subj for c in cs):
            return False
    return True
