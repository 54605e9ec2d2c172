"""C11 - the site a half-edge borders is the site of the cell it bounds."""
from .. import beach, edges

RULE = ('Shape analysis: each event handler is interpreted once from a symbolic consistent beach line, the clean-up, '
        'clipping and closing on symbolic scenes; in every resulting heap the two halves of each edge traced by a '
        "breakpoint belong to the sites of the arcs on its two sides, a new vertex' edges continue edges of the same "
        'cell, each piece of the boundary borders the cell next to it, and each site whose cell has an edge knows an '
        'edge of its own cell; deleting an edge hands the first edge on.')


def run(prog, rep):
    rep.each(lambda: edges.run(prog, rep, "C11"),
             lambda: beach.run(prog, rep, "C11"))
