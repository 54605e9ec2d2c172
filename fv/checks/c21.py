"""C21 - an edge is clipped at its own crossing with the boundary."""
from .. import edges

RULE = ("Abstract interpretation of the clipping routines on a symbolic line with ends inside, outside or unfinished and any arrangement of crossings with the "
        "sides of the region; on every path exactly the ends outside are replaced, by the crossing of this edge nearest to that end among those "
        "between its two ends, all sides are considered, and edges without a crossing are dropped.")


def run(prog, rep):
    edges.run(prog, rep, "C21", ("clipping",))
