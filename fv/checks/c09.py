"""C09 - edges are pairs of opposite half-edges linked consistently."""
from .. import beach, edges

RULE = ('Shape analysis: each event handler is interpreted once from a symbolic consistent beach line, the constructor, '
        'linking and deletion of half-edges on symbolic heaps, the clean-up on planar scenes with arbitrary zero-length '
        'edges, clipping and closing on symbolic boundaries; in every resulting heap twins are mutual, a half-edge ends '
        'where its twin begins, next and previous are inverse and lead round one cell.')


def run(prog, rep):
    rep.each(lambda: edges.run(prog, rep, "C09"),
             lambda: beach.run(prog, rep, "C09"))
