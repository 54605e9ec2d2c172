"""The one source of properties.jsonl and MANIFEST.json (see gen_docs.py)."""

A = "foronoi/algorithm.py"
TREE, NODE = "foronoi/tree/tree.py", "foronoi/tree/node.py"
EVT, CEV, SEV = "foronoi/events/event.py", "foronoi/events/circle_event.py", "foronoi/events/site_event.py"
BP, ARC = "foronoi/nodes/breakpoint.py", "foronoi/nodes/arc.py"
PT, VX, HE, CO, ALG, POLY = ("foronoi/graph/point.py", "foronoi/graph/vertex.py", "foronoi/graph/half_edge.py",
                             "foronoi/graph/coordinate.py", "foronoi/graph/algebra.py", "foronoi/graph/polygon.py")
BOX, CIRC = "foronoi/graph/bounding_box.py", "foronoi/contrib/bounding_circle.py"
SUBJ, VOBS, TOBS, DOBS = ("foronoi/observers/subject.py", "foronoi/observers/voronoi_observer.py",
                          "foronoi/observers/tree_observer.py", "foronoi/observers/debug_observer.py")
VIS, TVIS = "foronoi/visualization/visualizer.py", "foronoi/visualization/tree_visualizer.py"

# id, title, statement, over, quantifier, why_tests_cant, files, mechanism [(name, where)], observe_at
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "observe_at": list(observe), "hook_needed": None}))


p("C01", "The sweep processes events in one well-defined order",
  "Of any two pending events the one with the larger y comes first, at equal y the one with the smaller x, and at the same "
  "position a circle event before a site event, where a circle event's position is the bottom of its circle. The order is "
  "decided by comparing the exact decimal coordinates, so that no two different positions are taken for the same one. Two events of one kind are never each before the other.",
  ["inputs"], "all pairs of site and circle events at all positions, coinciding in one, both or no coordinates",
  "the tests use a few dozen point sets and never look at the order; ties between a circle and a site event hardly occur in them",
  [EVT, CEV, SEV], [("event comparison", f"{EVT}: Event.__lt__"), ("event position", f"{CEV}: CircleEvent.xd/yd")],
  ["order in which STEP_FINISHED reports events"])

p("C02", "Every event is handled exactly once and false alarms never",
  "Creating a diagram queues one event per input site and handles each of them once; a circle event is handled once, unless "
  "its arc lost or changed a neighbour after it was predicted, in which case it has no effect. While an event is handled the sweep line is "
  "at that event, and every new pair of neighbouring arcs is examined for the circle events of its two triples, which are scheduled exactly "
  "when the circle exists and the sites are in clockwise order.",
  ["histories", "inputs"], "all event histories: every interleaving of site and circle events, any number of pending events",
  "which arcs gain or lose neighbours depends on the whole history; tests only compare final vertices of some inputs",
  [A, CEV], [("main loop", f"{A}: create_diagram"), ("invalidation", f"{A}: handle_site_event/handle_circle_event"),
             ("prediction", f"{A}: _check_circles, {CEV}: create_circle_event")],
  ["Voronoi.event and Voronoi.sweep_line at STEP_FINISHED", "vertices of the diagram"])

p("C03", "Observers receive the documented notifications, each exactly once",
  "Every attached observer is told once, in this order, of each handled event, of the end of the sweep and of the finished diagram, and "
  "skipped events are not reported. A bounding region passes its messages to the observers of its diagram, naming the "
  "diagram as the sender, whether they were attached before or after the region was joined. Attaching or detaching an observer, even during a "
  "notification, affects only that observer.",
  ["histories", "configurations"], "all sequences of attaching, detaching and notifying, all event histories",
  "the tests attach no observers",
  [A, SUBJ, DOBS], [("protocol", f"{A}: create_diagram"), ("subject", f"{SUBJ}: Subject")], ["Observer.update calls"])

p("C04", "Observing or drawing a diagram never changes it",
  "Attaching observers, plotting any part of a diagram, and asking for areas, borders, vertices, labels or positions leave "
  "sites, edges, vertices, beach line, events and bounding region exactly as they were.",
  ["histories", "configurations"], "all observers, all drawing and query methods, at every stage of the construction",
  "the tests neither draw nor observe; an accidental write shows only in a later, unrelated result",
  [VIS, TVIS, VOBS, TOBS, DOBS, PT, BP, ARC, CEV, NODE], [("read-only drawing", f"{VIS}: Visualizer"),
                                                         ("observers", f"{VOBS}: update")], ["the diagram before and after"])

p("C05", "The caller's data is never modified, and results are not internals",
  "Point lists, polygon lists, settings and callbacks handed to the library are never written to, nor kept so that a later run "
  "would change them. The collections of vertices and arcs a diagram hands out, and the borders and vertices a site hands "
  "out, are fresh: changing them does not change the diagram.",
  ["inputs", "histories"], "all inputs and all later operations on the diagram",
  "tests pass literals they never look at again",
  [A, POLY, PT, VOBS], [("conversion of input", f"{A}: create_diagram"), ("queries", f"{A}: vertices, arcs; {PT}: borders")],
  ["arguments after the call", "collections after being changed by the caller"])

p("C06", "Separate diagrams and objects share no hidden mutable state",
  "No function keeps state in defaults, modules or classes: two diagrams, polygons or vertices built independently never "
  "influence one another, and every call with default arguments behaves like the first.",
  ["histories"], "all sequences of constructions and calls in one process",
  "sharing shows only with several objects alive in one process and particular sequences",
  [A, POLY, VX, HE, VOBS, VIS], [("defaults", f"{VX}: Vertex.__init__"), ("presets", f"{VIS}: Presets")], ["second diagram built in a process"])

p("C07", "A second run on the same objects equals a run on fresh ones",
  "Creating a diagram again, with the same diagram object or with a bounding region that served another run, gives what fresh objects "
  "would give: no events, edges, vertices, arcs or boundary vertices of the earlier run survive.",
  ["histories"], "all sequences of runs over reused diagram and bounding objects, including after a failed run",
  "each test builds fresh objects",
  [A, POLY, CIRC], [("reset", f"{A}: initialize"), ("reset", f"{POLY}: finish_edges, {CIRC}: finish_edges")], ["second create_diagram"])

p("C08", "Zero is a number: coordinates, bounds and sweep lines of 0 are honoured",
  "A coordinate, bound, radius, sweep line or option whose value is 0 is used as that value and never treated as "
  "absent; likewise an empty list given explicitly is used as an empty list and not replaced by a default.",
  ["inputs"], "all numeric values reaching any function of the package, zero in particular",
  "a zero at that particular place has to occur; few tests have one and they miss most places",
  [BP, HE, POLY, CIRC, VIS, PT], [("None tests", f"{BP}: get_intersection"), ("defaults", f"{VIS}: plot_*")], ["results with 0 in the data"])

p("C09", "Edges are pairs of opposite half-edges linked consistently",
  "In everything the construction produces, the twin of a half-edge's twin is the half-edge itself, a half-edge ends where its twin begins, "
  "and the two name the two sites whose cells they separate. Where next and previous are set they are mutually inverse, "
  "a half-edge and its next belong to the same cell, and the next begins where the half-edge ends.",
  ["histories", "inputs"], "all event histories and all edges, through sweeping and deletion",
  "linkage bugs show only when a particular configuration is walked; tests compare vertex coordinates and a few areas",
  [HE, A], [("twin", f"{HE}: twin setter"), ("next", f"{HE}: set_next, delete"), ("linking at a vertex", f"{A}: handle_circle_event")],
  ["HalfEdge.twin/next/prev/target"])

p("C10", "A vertex lists exactly the half-edges that start in it",
  "Whenever a vertex is created, moved, merged or an edge is deleted, a half-edge is listed as connected to a vertex exactly if it "
  "originates there, once; a vertex made by a circle event has the three edges that meet there.",
  ["histories", "inputs"], "all circle events, clips, merges and deletions",
  "no test reads connected edges",
  [A, VX, HE, POLY, CIRC], [("vertex", f"{A}: handle_circle_event"), ("merge", f"{A}: clean_up_zero_length_edges"),
                            ("clip", f"{POLY}: _finish_edge, finish_polygon")], ["Vertex.connected_edges"])

p("C11", "The site a half-edge borders is the site of the cell it bounds",
  "Each border found by walking from a site bounds that site's own cell: edges created between two arcs belong to the two arcs' sites, a "
  "site gets an edge of its own cell as its first edge as soon as one exists and keeps having one when that edge is deleted; the borders and vertices a site "
  "lists are those met from its first edge on, each once, all round or as far as they are known.",
  ["histories", "inputs"], "all event histories",
  "the tests check the area of a few cells only",
  [A, HE, PT, POLY], [("incident points", f"{A}: handle_site_event, handle_circle_event"), ("first edge", f"{HE}: delete")],
  ["HalfEdge.incident_point", "Point.first_edge", "Point.borders()"])

p("C12", "The beach line stays in order through every tree operation",
  "Rotating, balancing, replacing, inserting and deleting keep the left-to-right sequence of the beach line (apart from the item added or removed) and "
  "consistent parent links; the predecessor and successor of an arc are its neighbouring arcs; a search finds the arc above a point, and an item that is in the tree is found even where keys are "
  "out of order; the leaves of a tree are listed once each, from left to right. Every site with an arc on the beach line has an arc among those the diagram reports.",
  ["inputs", "histories"], "all trees of any shape and size, all keys",
  "a test covers small trees; sequence damage shows up as wrong neighbours in rare shapes",
  [TREE, NODE], [("rotation", f"{TREE}: rotate_left/rotate_right"), ("replacement", f"{NODE}: replace_leaf"),
                 ("neighbours", f"{NODE}: predecessor, successor"), ("search", f"{TREE}: find_leaf_node, find_value")],
  ["status_tree", "TreeObserver"])

p("C13", "The beach-line tree is balanced and its heights are right",
  "After every operation each node's height is one more than the larger of its children's, an unbalanced node is "
  "rotated into one whose subtrees' heights differ by at most one, and after each event rebalancing runs from the place of change up to the root, which becomes the tree's root.",
  ["inputs", "histories"], "all trees and all events",
  "an unbalanced tree gives the same diagram, only slower, so tests of results cannot see it",
  [TREE, NODE, A], [("balance", f"{TREE}: balance, balance_and_propagate"), ("height", f"{NODE}: update_height(s)"), ("use", f"{A}: handle_*")],
  ["height and balance of status_tree"])

p("C14", "The geometric kernels compute what they stand for, for all inputs",
  "The circle event of three sites has the circle through all three; a breakpoint lies on both its sites' parabolas, on the side given by their order; an intersection lies on both "
  "lines, within the segment and ahead of the ray's start; the clockwise, containment, distance, angle, arc and area computations agree with their "
  "mathematical definitions, in every degenerate case the code distinguishes.",
  ["inputs"], "all real inputs, including equal coordinates, collinear points and points on the sweep line",
  "the tests evaluate the formulas at a handful of points",
  [BP, ARC, CEV, ALG, POLY, CIRC, PT], [("circle", f"{CEV}: create_circle"), ("breakpoint", f"{BP}: get_intersection"),
                                        ("intersection", f"{ALG}: line_ray_intersection_point"), ("containment", f"{POLY}: inside")],
  ["kernel results"])

p("C15", "The diagram moves and grows with its input",
  "Moving all sites and the bounding region by the same vector moves the diagram by it, and scaling them scales it: no comparison "
  "depends on the absolute position or on a fixed length, so that tiny, huge and far-away inputs are treated alike.",
  ["inputs"], "all translations and positive scalings of all inputs",
  "the tests use coordinates of one magnitude near the origin",
  [BP, ARC, CEV, ALG, POLY, CIRC, PT, A], [("comparisons", f"{CEV}: create_circle; {POLY}: inside; {A}: clean_up_zero_length_edges")],
  ["vertices of translated and scaled inputs"])

p("C16", "Coordinates are kept exactly as decimals",
  "A coordinate given by the caller is stored as the decimal number it is written as, and reading it returns that number; positions of sites, "
  "circles, breakpoints and vertices (other than crossings with a polygon's sides) are computed and compared in decimal arithmetic without rounding through "
  "floats or a fixed number of digits.",
  ["inputs"], "all coordinates, in any type and with any number of digits",
  "needs inputs where the difference between float and decimal arithmetic decides; the one such test covers one input",
  [CO, BP, CEV, PT, VX], [("conversion", f"{CO}: _to_dec"), ("arithmetic", f"{BP}: get_intersection, {CEV}: create_circle")], ["xd, yd, x, y, xy"])

p("C17", "Bounding regions expose the extent they were given",
  "A box or polygon has exactly the corners, centre and extents its arguments describe, in all positions and sizes and "
  "with the corners given in any order, a circle its centre and radius; the corners are ordered clockwise around a point inside, and "
  "unfinished edges are evaluated with a sweep line below the whole region. "
  "Every kind of region can be used wherever a bounding region is accepted.",
  ["inputs", "configurations"], "all positions, sizes, aspect ratios and orders of corners",
  "the tests use regions around the origin, of similar size and shape",
  [POLY, BOX, CIRC], [("extents", f"{POLY}: __init__"), ("sweep line", f"{POLY}: _finish_edge; {CIRC}: __init__")], ["min_x…max_y, center, get_coordinates"])

p("C18", "Drawing honours its options and draws what is in the diagram",
  "Every option of the plotting methods and observers has its documented effect on its own part of the drawing and on no other: each part is drawn exactly "
  "when asked for, with the given elements, labels, colours, offset and size, and a default is used only where nothing was given. What is drawn has the coordinates of the diagram; a tree is shown, as a graph or as text, with "
  "each of its nodes once, with its label, in its place.",
  ["configurations"], "all combinations of options, all diagrams",
  "the tests do not draw",
  [VIS, VOBS, TOBS, DOBS], [("options", f"{VIS}: plot_all"), ("observers", f"{VOBS}: update; {TOBS}: update")], ["figures handed to callbacks"])

p("C19", "The documented interface exists and works as written",
  "Every name, attribute, parameter, call and callback used in the README, the documentation pages, the example programs and the examples in the doc strings exists, "
  "can be called that way and gives a result of the documented kind; what the doc strings of public functions describe exists; "
  "and every name, attribute and call the code itself uses is one its objects have and accept.",
  ["programs"], "all documented snippets and all names, attributes and calls of the package",
  "tests exercise few of the documented names",
  ["README.md", "docs/pages/quickstart.rst", "examples/quickstart.py", A, PT, VX, HE, VIS, VOBS, TOBS],
  [("examples", "README.md, docs/pages, examples, doc strings"), ("described interface", "doc strings of public functions")], ["running the examples"])

p("C20", "Removing zero-length edges removes exactly those",
  "When enabled, the clean-up removes each edge whose two ends have equal coordinates, merges its two vertices into one that takes over "
  "all their edges, and keeps every other edge and vertex, in order; when disabled nothing is removed.",
  ["inputs", "configurations"], "all diagrams, any number and arrangement of zero-length edges, several at one vertex",
  "two tests cover grids with single coincident vertices",
  [A, HE], [("clean-up", f"{A}: clean_up_zero_length_edges")], ["edges, vertices, connected_edges"])

p("C21", "An edge is clipped at its own crossing with the boundary",
  "A clipped edge ends in a point that lies on the edge itself between its two ends and on the boundary, namely the crossing the edge leaves the region through; "
  "only ends outside the region, or not yet ended, are clipped, and an edge that has no point inside is dropped.",
  ["inputs"], "all edges and all polygons, boxes and circles, edges crossing any number of sides",
  "tests contain few edges crossing several sides of a polygon or beginning outside",
  [POLY, CIRC, ALG], [("polygon", f"{POLY}: finish_edges, _finish_edge, _get_intersection_point"), ("circle", f"{CIRC}: finish_edges, cut_line")],
  ["positions of boundary vertices"])

# ------------------------------------------------------------------ not decided by static analysis
p("C30", "Every point of a cell is nearest to the cell's site",
  "For every finished diagram, each location in a site's cell is at least as near to that site as to any other site.",
  ["inputs"], "all finite sets of distinct sites and all bounding regions containing them",
  "tests compare some vertices with precomputed ones",
  [A, BP, CEV], [("the sweep", f"{A}: create_diagram")], ["cells"])
p("C31", "The cells partition the bounding region",
  "The areas of all cells of a diagram in a convex bounding polygon sum up to the polygon's area.",
  ["inputs"], "all point sets inside all convex polygons",
  "tests check the sum for a few inputs",
  [POLY, PT], [("closing of cells", f"{POLY}: finish_polygon")], ["Point.area()"])
p("C32", "Walking round a cell ends and returns to its start",
  "Following next from a site's first edge in a finished diagram returns to that edge after finitely many steps, for every site.",
  ["inputs"], "all finished diagrams", "tests walk the cells of some inputs",
  [PT, POLY], [("walk", f"{PT}: borders")], ["Point.borders()"])
p("C33", "Nothing of the finished diagram lies outside the bounding region",
  "All vertices and edges of a finished diagram lie in the closed bounding region, including where edges meet its corners or run along its sides.",
  ["inputs"], "all point sets and regions, vertices exactly on the boundary included", "tests contain few boundary coincidences",
  [POLY, CIRC], [("clipping", f"{POLY}: finish_edges")], ["vertices"])
p("C34", "The order in which sites are given does not matter",
  "Any permutation of the sites gives the same cells.",
  ["inputs"], "all permutations of all inputs", "tests give each input in one order", [A], [("event order", f"{EVT}")], ["cells"])
p("C35", "Rounding does not change the topology",
  "The finite precision of decimal and float arithmetic never makes the sweep pick a wrong arc, miss a circle event or misjudge a clip.",
  ["inputs"], "all inputs at all magnitudes", "tests contain one such input", [BP, CEV, ALG], [("precision", BP)], ["diagram"])
p("C36", "The sweep takes O(n log n) time",
  "Creating a diagram of n sites takes time proportional to n log n, also for adversarial inputs.",
  ["inputs"], "all inputs of any size", "tests are small", [A, TREE], [("search", TREE)], ["running time"])

NOT_APPLICABLE = {
    "C30": "global geometric correctness: it follows from the order of the breakpoints along the beach line at every sweep position, an invariant over real "
           "algebraic functions of unboundedly many sites, which no static argument in reach can bound; the local facts it rests on are C01, C02, C09-C14.",
    "C31": "a numeric identity over the whole diagram (a sum over unboundedly many cells computed in floats); the shoelace kernel itself is in C14, the linking in C09 and C11.",
    "C32": "termination of a walk over links made in an order decided by sorting boundary vertices by angle; the cyclic order of unboundedly many "
           "real angles is a runtime quantity. The local linking at each vertex is decided in C09.",
    "C33": "whether an end lies on, inside or outside a side is a comparison of runtime reals at float precision; the present code is known not to treat "
           "vertices exactly on the boundary (see DESIGN.md). What can be decided - that the clip point is on the edge and on the boundary - is C21.",
    "C34": "follows from C30; by itself it quantifies over permutations of runtime values and ties broken by a queue, and needs the geometric invariant.",
    "C35": "floating-point error bounds through square roots and quotients of unbounded inputs; Decimal's context precision is a runtime quantity. C16 decides that no avoidable loss occurs.",
    "C36": "running time is not a property of the source's data flow; the fallback search of find_value is linear in the worst case by design. That the tree is kept balanced is C13.",
}

TECH = {
    "C01": ("abstract interpretation with symbolic numbers (relational partitions)",
            "every sign case of the two positions for every pair of event kinds is enumerated over the reals; trusts the interpreter's model of Python and of Decimal"),
    "C02": ("typestate analysis by abstract interpretation of the handlers over a symbolic beach line",
            "one arbitrary handler step from an arbitrary consistent state (inductive), and one arbitrary loop iteration; trusts the ghost model of the tree, itself checked by C12"),
    "C03": ("typestate/protocol analysis by abstract interpretation",
            "an arbitrary iteration of the event loop plus prologue and epilogue, and the subject's operations over arbitrary observer lists"),
    "C04": ("effect analysis: points-to/ownership dataflow over all drawing and query entry points",
            "flow-insensitive over-approximation of writes; library calls are modelled as not writing their arguments"),
    "C05": ("ownership and escape dataflow analysis",
            "tracks caller-owned containers through all calls of the construction; trusts the models of library functions"),
    "C06": ("effect analysis on shared locations (defaults, module and class state)",
            "every function of the package analysed with unknown arguments"),
    "C07": ("flow-sensitive carried-state analysis (write-before-read of surviving fields)",
            "tracks every object that exists before a run; strong updates only where the receiver is unique"),
    "C08": ("numeric-type inference over the whole package with a truthiness rule, and abstract interpretation of None defaults",
            "every truth test in the package is an obligation; unfinished ends are evaluated at an arbitrary sweep line and at 0"),
    "C09": ("abstract interpretation of the handlers over symbolic heaps (shape analysis)",
            "one arbitrary handler step from an arbitrary consistent state"),
    "C10": ("abstract interpretation over symbolic heaps (shape analysis)", "one arbitrary step from an arbitrary consistent state"),
    "C11": ("abstract interpretation over symbolic heaps (shape analysis)", "one arbitrary step from an arbitrary consistent state"),
    "C12": ("shape analysis of tree operations with opaque subtrees", "all trees by induction over the path; trusts the interpreter"),
    "C13": ("shape analysis with symbolic heights, and a must-call path rule", "all height combinations of opaque subtrees"),
    "C14": ("abstract interpretation with exact symbolic algebra (rational-function normal forms)",
            "identities hold over the reals on every partition of the kernels' branches; rounding is not modelled"),
    "C15": ("dimension and translation (covariance) analysis on symbolic normal forms", "every comparison reached from the kernels is an obligation"),
    "C16": ("taint analysis of lossy conversions within the abstract interpreter", "every comparison and result of the exact kernels is an obligation"),
    "C17": ("abstract interpretation with exact symbolic algebra", "symbolic regions: boxes, circles, triangles and quadrilaterals given in any order; extents, corner order, sweep line, and the interface between regions and the algorithm"),
    "C18": ("abstract interpretation with recorded drawing calls (option flow analysis)",
            "all combinations of options; on every path the primitives drawn are compared with the elements of a symbolic diagram (lists of none to seven elements)"),
    "C19": ("whole-program type inference and name resolution over the source and all documented examples",
            "flow-insensitive: an attribute or call is an alarm only if no class its receiver can have fits; receivers of unknown kind are counted, not judged"),
    "C20": ("abstract interpretation of a generic loop iteration (shape analysis)", "an arbitrary iteration over arbitrary edges"),
    "C21": ("abstract interpretation with symbolic algebra of the clipping routines", "arbitrary edge and symbolic boundary; two and three crossings"),
}
