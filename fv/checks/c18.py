"""C18 - drawing honours its options and draws what is in the diagram."""
from ..draw import Draw

RULE = ("Abstract interpretation of the visualizer and the observers on diagrams with symbolic coordinates, with a recorder in place of the plotting library: "
        "on every path the primitives drawn (markers, segments, labels, arrows, circles, outlines, curves) are those of the elements given, no more and no less; "
        "plot_all draws each part exactly when its option is set, in all combinations, and passes each option to its part; "
        "an observer draws exactly the messages it is asked for, with the presets overridden by the settings, and counts them.")


def run(prog, rep):
    d = Draw(prog, rep.tier)
    try:
        rep.each(d.setup, d.polygon, d.vertices, d.sites, d.edges, d.borders, d.outgoing, d.many, d.sweep, d.events, d.arcs, d.all_, d.voronoi_observer, d.tree_observer,
                 d.tree_text, d.debug_observer)
    finally:
        for ok, rule, where, what, detail in d.obs:
            rep.ob(ok, rule, where, what, detail)
        for I in d.interps:
            rep.interp(I)
    rep.count("paths", d.paths)
    rep.count("tree_texts_not_followed", getattr(d, "unread", 0))
