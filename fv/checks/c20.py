"""C20 - removing zero-length edges removes exactly those."""
from .. import edges, loop

RULE = ("Shape analysis: the clean-up is interpreted on planar scenes whose vertices have symbolic coordinates, with one, two or three edges that "
        "may have no length, in each order and direction; on every path an edge is gone exactly if the path's facts make its ends equal, the vertices "
        "it joined are one vertex that lists all remaining edges, and everything else is as before.  The event loop is interpreted with the option on and off.")


def run(prog, rep):
    rep.each(lambda: edges.run(prog, rep, "C20", ("half_edges", "cleanup")),
             lambda: loop.run(prog, rep, "C20"))
