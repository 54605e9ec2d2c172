"""C10 - vertices and edges are listed exactly once and know each other."""
from .. import beach, edges

RULE = ('Shape analysis: each event handler is interpreted once from a symbolic consistent beach line, deletion and '
        'clean-up on symbolic heaps, clipping and closing on symbolic boundaries; in every resulting heap each vertex '
        'lists exactly the half-edges that begin in it, and edges and vertices are listed once.')


def run(prog, rep):
    rep.each(lambda: edges.run(prog, rep, "C10"),
             lambda: beach.run(prog, rep, "C10"))
