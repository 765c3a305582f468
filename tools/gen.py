#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK_COMMITS = ["9e292202", "a19fc137", "26642f3b"]
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, qtext=" ".join(qtext.split()), why=" ".join(why.split()),
                  files=files, mech=mech, observe=observe, technique=technique, note=" ".join(note.split()), hook=hook))

VO = "trellis/src/vec_option.rs"
RT = "trellis/src/ramp_table.rs"
GR = "trellis/src/graph.rs"
TE = "trellis/src/testing.rs"
TS = "trellis/src/topo_sort.rs"
LA = "trellis/src/layering.rs"
DI = "trellis/src/disjoint.rs"
FC = "trellis/src/find_chains.rs"
LIB = "trellis/src/lib.rs"
PQ = "trellis/src/priority_queue.rs"
SP = "trellis/src/ortho/shortest_path.rs"
PP = "trellis/src/pathplan/"
CO = "trellis/src/common/"
LX = "dot_parser/src/lexer.rs"

prop("V01", "VecOption behaves like a Vec of Options under every history of operations",
  """After any sequence of VecOption operations (push, pop, set, replace, swap, extend, collect, from a Vec, repeat-none, clone, drain, compact, into-Vec, reserve and so on), its length, each element, and everything its accessors, iterators and run iterators report equal what the same sequence does to a Vec<Option<T>>; compaction keeps the present values in order.
  Draining removes exactly the given range, whatever part of the drained items is consumed, and leaves the rest in order.
  Operations at indexes or ranges outside the vector panic and leave its contents as they were, and pop on an empty vector gives None.""",
  ["histories"], "every sequence of operations, every length across the 32-element words of the presence bit map, every element type, and every range and index, in or out of bounds",
  """The tests run a few short fixed sequences; clone, compact, drain, extend, swap and the mutable run iterators are reached by few of them, on vectors of a few elements that hardly cross a bit map word.""",
  [VO], [dict(name="presence bit map and value array", where=VO+": VecOption"), dict(name="Drain", where=VO+": drain, Drain"), dict(name="compaction", where=VO+": compact, some_into_vec"), dict(name="run iterators", where=VO+": IterRuns, IterRunsMut")],
  ["public methods of VecOption", "the iterators it returns"],
  "model-based (stateful) property testing against Vec<Option<T>>",
  "Random histories over u8, u32, String and zero-sized elements; full comparison after every operation; heap writes beyond allocations are caught by red zones. No proof of absence.")

prop("V02", "VecOption owns its elements: each is dropped exactly once, also when code panics",
  """Every value put into a VecOption is dropped exactly once, or handed out exactly once and then not dropped by the vector, whichever operations, partly consumed draining or consuming iterators, overwrites, clones and drops of the vector happen; absent elements are never read, cloned or dropped.
  When cloning or dropping an element, or an iterator that elements are taken from, panics, no value is dropped twice and no dropped value stays visible in the vector; values may then leak.""",
  ["histories", "fault_sequences"], "every history of operations, every point at which iteration stops, and a panic in any clone, any drop, or any step of a source iterator during it",
  "No test counts drops, and none makes a clone or drop panic; a double drop of plain integers cannot be seen.",
  [VO], [dict(name="ownership of the value array", where=VO+": Drop, Clone, set, replace, pop, compact"), dict(name="consuming iterators", where=VO+": IntoIter, IntoSomeIter, Drain, DrainSome")],
  ["clones and drops counted by the element type"],
  "stateful property testing with instrumented elements and injected panics",
  "Elements carry an identity and a canary; each history may include one panic in the k-th clone or drop, for generated k.")

prop("V03", "VecOption equality, order and hash agree with each other and with its elements",
  """Two VecOption values are equal exactly if they have the same length and the same elements at the same places, however they were built, and equal ones hash alike.
  Their order is a total order consistent with equality (antisymmetric, transitive, partial comparison included), and vectors of the same length compare element by element, absent before present.""",
  ["inputs", "histories"], "all triples of vectors with orderable elements, whatever their construction history left in unused slots",
  "The tests compare a few short pairs; transitivity, agreement with hash and leftover state after removals need triples and histories.",
  [VO], [dict(name="PartialEq, Ord, PartialOrd, Hash", where=VO+": impl PartialEq/Ord/PartialOrd/Hash for VecOption")], ["==, cmp, partial_cmp, hash"],
  "property testing of algebraic laws over related vectors built through different histories",
  "The order between vectors of different length is only required to be a total order consistent with equality.")

prop("R01", "RampTable behaves like a list of lists under every history of operations",
  """After any sequence of RampTable operations, its keys, their values and ranges, its counts, and every iterator (forwards, backwards, sizes, pairs, mutable) report exactly the list of value lists that the sequence builds, with each value attributed to its own key.
  Values pushed after the last finished key belong to no key yet: they count as values, become the next key's when it is finished, and are in no key's list or pair. When cloning a value, or the iterator that an entry is taken from, panics, the finished keys stay as they were, and of the values given only some first ones may be in the table, without a key.""",
  ["histories"], "every sequence of pushes, finishes, bulk entries, clears and edits through mutable access, including empty keys anywhere and unowned values",
  "The tests use a few small tables; empty keys at either end, unowned values, and mixed forward/backward iteration are reached by almost none.",
  [RT], [dict(name="index of starting positions", where=RT+": RampTable::index"), dict(name="iterators", where=RT+": iter, iter_mut, iter_pairs, iter_pairs_manual")], ["public methods of RampTable"],
  "model-based (stateful) property testing against Vec<Vec<T>>",
  "Full comparison after every operation; the public fields are not edited directly.")

prop("R02", "RampTableBuilder groups pairs by key and keeps arrival order",
  """From any sequence of (key, value) pairs, pushed or extended in any order, the builder makes a table in which each key up to the largest given one has exactly its values, in the order in which they arrived; keys without values are empty.""",
  ["inputs"], "every sequence of pairs, in any key order and with any repetition",
  "The only test uses one short sequence; stability within a key and gaps between keys depend on the input order.",
  [RT], [dict(name="stable sort and fill", where=RT+": RampTableBuilder::finish")], ["RampTableBuilder::finish"],
  "property testing against grouping in arrival order", "Each value carries its arrival number.")

A = "graphs are well formed (every target exists)"
prop("G01", "Transposing a graph reverses every edge exactly once",
  """The transpose of any graph has the same vertices and, for each edge u to v with its multiplicity, exactly one edge v to u; the edges from each vertex are listed in ascending order of their targets.
  Transposing twice gives the original graph with sorted edges.""",
  ["inputs"], "every well-formed directed multigraph, with self-loops, repeated edges and isolated vertices",
  "One test on one small graph.", [GR], [dict(name="counting transposition", where=GR+": Graph::transpose")], ["Graph::transpose"],
  "property testing against a direct list of predecessors, and the double transpose relation", "Random graphs up to some dozens of vertices, larger in the thorough tier. Assumes "+A+".")

prop("G02", "Graphs hold exactly the edges they were built from",
  """A graph built by the graph builder (edges, from/to chains, paths) or by pushing targets and finishing sources has exactly the given edges with their multiplicity and order, and every accessor and edge iterator reports the same edges and counts; the builder makes as many vertices as the largest named one requires.
  The well-formedness assertion accepts every graph whose targets exist and panics on every graph with a target out of range.""",
  ["inputs", "histories"], "every sequence of builder calls or pushes, and any placement of one edge out of bounds",
  "Tests use the builder on a few small graphs and never exercise the assertion's failing side.", [GR, TE], [dict(name="builder", where=TE+": GraphBuilder"), dict(name="accessors", where=GR+": Graph"), dict(name="assert_graph_is_well_formed", where=GR)], ["Graph accessors", "panics of assert_graph_is_well_formed"],
  "property testing against an edge list", "Numbers of vertices and edges and every accessor are compared.")

prop("G03", "Topological sorting gives a valid order exactly for acyclic graphs",
  """For any graph without cycles, topo_sort lists each vertex that has an edge exactly once (isolated ones not at all) with every edge pointing forwards in the list, and topo_sort_reverse lists them with every edge pointing backwards.
  For any graph with a cycle, self-loops included, both report the found-cycle error and do not loop or panic.""",
  ["inputs"], "every well-formed directed multigraph",
  "The tests run a handful of small graphs; which vertex is entered first and where cycles hang off the search decide the outcome.", [TS], [dict(name="iterative depth-first search with vertex states", where=TS+": topo_sort_reverse"), dict(name="topo_sort", where=TS)], ["results of topo_sort and topo_sort_reverse"],
  "property testing: validity of the order, cycles decided by Kahn's algorithm", "Any valid order is accepted.")

prop("G04", "Layer maps put each vertex at its longest distance to a sink",
  """For any acyclic graph, the layer of each vertex is the length of the longest path from it to a vertex without outgoing edges, so that every edge points to a lower layer, and the number of layers is one more than the highest layer (one without vertices).
  For any graph with a cycle the found-cycle error is reported.""",
  ["inputs"], "every well-formed directed multigraph", "The test prints and checks a few small graphs; the longest path matters only where paths of different lengths meet.",
  [LA], [dict(name="longest path over reverse topological order", where=LA+": create_layer_map")], ["LayerMap"],
  "property testing against longest paths computed independently", "Isolated vertices are at layer 0.")

prop("G05", "The proper graph replaces each long edge by its own chain of virtual vertices",
  """Given an acyclic graph and layers in which each edge points to a lower layer, the proper graph keeps the original vertices with their numbers, keeps each edge that spans one layer, and replaces each edge that spans k layers by a path of k edges through k-1 new vertices of its own, one per layer in between.
  It has no other edges, and its vertices are exactly the original ones followed by those new ones.""",
  ["inputs"], "every acyclic graph with any valid layering",
  "No test calls it with an edge that spans more than one layer.", [LA], [dict(name="create_proper_graph", where=LA)], ["edges of the returned graph"],
  "property testing: the multiset of (from, to, length) paths is compared with the edges' spans", "Order of edges and numbering among the virtual vertices are free.")

prop("G06", "Disjoint subgraphs are exactly the weakly connected components",
  """For any graph, the subgraphs found are exactly the sets of vertices that are connected by edges regardless of direction, for vertices that have an edge; each such vertex is in exactly one subgraph, once, and vertices without edges are in none.
  The number of subgraphs reported agrees with the sets.""",
  ["inputs"], "every well-formed directed multigraph, in particular chains of merges between partial subgraphs found in any order",
  "Tests use a few graphs; wrong merges need several partial subgraphs that meet in a particular order.", [DI], [dict(name="merging of subgraph numbers", where=DI+": find_disjoint_subgraphs")], ["DisjointSubgraphs"],
  "property testing against a flood fill", "Compared as sets of sets.")

prop("G07", "Chains are exactly the maximal runs of vertices with one edge in and one out",
  """For any graph, the chains found are exactly the maximal paths whose inner vertices each have exactly one incoming and one outgoing edge, each listed once from its first to its last vertex, both ends included.
  A path without inner vertices, and a ring in which every vertex is an inner one, is not a chain.""",
  ["inputs"], "every well-formed directed multigraph", "The test has a few cases; rings, self-loops, repeated edges and chains that share ends need generation.", [FC], [dict(name="degrees and walk", where=FC+": find_chains")], ["the table of chains"],
  "property testing against a walk from every vertex that is not inside a chain, compared as multisets", "Order among chains is free.")

prop("G08", "Degrees saturate instead of wrapping; sources, sinks and references are exact",
  """Counting degrees adds the number of occurrences of each vertex to its count, stops at 65535 instead of wrapping, and reports whether any count would have passed it; counts of other vertices are not affected.
  The referenced flags, sources (vertices with no incoming edge) and sinks (vertices with no outgoing edge) of any graph are exact.""",
  ["inputs"], "every list of vertices, with counts below, at and above the limit from any starting degrees, and every well-formed graph",
  "The test counts a handful of edges; saturation needs more than 65535 occurrences or prepared starting degrees.", [LIB], [dict(name="add_degree, add_degree_mut, find_degree", where=LIB), dict(name="find_referenced_edges, find_sources, find_sinks", where=LIB)], ["returned counts and flags"],
  "property testing against 64-bit counts", "Starting degrees are generated near the limit as well as long lists.")

prop("G09", "Depth-first traversal lists each vertex, then its successors, in order",
  """The depth-first preorder traversal from a vertex lists, for each outgoing edge in the order of the graph, the target followed at once by everything below that target in the same way; the starting vertex is listed only when an edge leads to it, and vertices reached on several ways are listed once per way.
  It is lazy: on a cyclic graph any number of first items can be taken.""",
  ["inputs"], "every well-formed graph, starting vertex and number of items taken", "No test runs it.", [LIB], [dict(name="stack of edge positions", where=LIB+": traverse_depth_first_preorder")], ["the items of the iterator"],
  "property testing against a recursive reference", "A bounded number of items is taken, also from infinite traversals.")

prop("Q01", "The priority queue always removes a greatest item and loses none",
  """Under any sequence of inserts, removals and clears, each removal gives an item that no item in the queue is greater than, or None exactly if the queue is empty; every inserted item comes out exactly once unless cleared, and is printed once while it is in the queue.""",
  ["histories"], "every history, with any pattern of equal priorities", "The test inserts a few numbers; a wrong choice among children shows only for heaps of some depth and particular orders.", [PQ], [dict(name="binary heap", where=PQ+": insert, remove")], ["PQ::insert, remove, clear"],
  "model-based (stateful) property testing against a multiset", "Items are tagged, so that loss and duplication are seen among equal ones.")

prop("S01", "Graph shortest path search gives a valid path of least weight or none",
  """For any start and goal in a finite graph with non-negative weights, the search gives a path of actual edges from start to goal whose total weight is the least possible, or none exactly if the goal cannot be reached; it always ends, also on cycles, and asks for the edges of vertices no more often than the graph has edges, plus once.
  Start and goal being the same, and edges of weight 0, self-loops and parallel edges, are no exceptions.""",
  ["inputs"], "every finite directed multigraph with non-negative weights and every pair of vertices", "The only test is empty.", [SP], [dict(name="priority queue of partial paths", where=SP+": find_shortest_path"), dict(name="heap", where=SP+": pq_reorder_up, pq_reorder_down")], ["the returned path"],
  "property testing against Bellman-Ford", "Any path of least weight is accepted; paths may be heavier than an i32 holds.")

prop("P01", "Shortest paths over a weight matrix are shortest",
  """For any symmetric matrix of weights, of which only the lower triangle is read and 0 means no edge, the predecessors returned lead from every settled vertex to the root along existing edges, and the way from the target, or from any vertex nearer than it, is a shortest path to the root. From a target that cannot be reached no way leads to the root.
  The variant that takes a weight function gives the same answer as the one that takes a matrix.""",
  ["inputs"], "every symmetric weight matrix, root and target", "No test calls it.", [PP+"shortestpth.rs"], [dict(name="Dijkstra by linear scan", where=PP+"shortestpth.rs: shortestPath, shortestPathGeneric")], ["the predecessor list"],
  "property testing against a textbook Dijkstra", "Garbage in the upper triangle; weights of any magnitude.")

prop("P02", "The visibility graph joins exactly the obstacle corners that see each other",
  """For any set of disjoint polygonal obstacles, the configuration lists their corners with neighbours and polygon starts, and the visibility matrix holds, for each two corners joined by a side or by a straight line that crosses no obstacle, their distance, and 0 for all others.
  Computing it again for the same configuration gives the same matrix.""",
  ["inputs"], "every set of disjoint simple polygons (also single points and segments) in clockwise order", "No test checks the matrix.", [PP+"visibility.rs", PP+"cvt.rs"], [dict(name="visibility", where=PP+"visibility.rs: compVis, inCone, clear, intersect"), dict(name="Pobsopen", where=PP+"cvt.rs")], ["vconfig_t fields"],
  "property testing against exact integer geometry", "Coordinates on a grid whose unit is a power of two, moved and scaled, so that the reference is exact; corners that only touch lines are generated too.")

prop("P03", "Routes around obstacles are legal and shortest",
  """For any disjoint obstacles and two points, visibility from a point holds the distance to exactly the corners that it sees and 0 for others, direct visibility tells exactly whether the straight line is free, and the route found goes from one point to the other along lines of sight and is as short as possible.
  An endpoint inside an obstacle ignores that obstacle, whether its polygon is named or found.""",
  ["inputs"], "every set of disjoint obstacles and two points, outside, inside or on corners of obstacles", "No test calls these functions.", [PP+"visibility.rs", PP+"shortestpth.rs"], [dict(name="ptVis, directVis, polyhit", where=PP+"visibility.rs"), dict(name="makePath", where=PP+"shortestpth.rs")], ["makePath's predecessor list", "ptVis", "directVis"],
  "property testing against exact visibility and Dijkstra", "Integer coordinates.")

prop("P04", "The shortest path in a polygon stays inside and is shortest",
  """For any simple polygon, given in either direction, also with corners on straight sides or repeated, and two points inside or on its boundary, the path found starts and ends at them, bends only at corners of the polygon, never leaves the polygon, and is the shortest such path.
  If a point is outside the polygon an error is reported.""",
  ["inputs"], "every simple polygon in either direction and every two points", "No test runs it to its end.", [PP+"shortest.rs"], [dict(name="triangulation", where=PP+"shortest.rs: triangulate"), dict(name="funnel", where=PP+"shortest.rs: Pshortestpath, add2dq, splitdq, finddqsplit")], ["the returned polyline or error"],
  "property testing against the shortest path over the exact visibility graph inside the polygon", "Integer coordinates, so that the reference is exact; the polygon is not closed explicitly by repeating its first corner at the end.")

prop("P05", "Fitted splines join the ends, follow the tangents and cross no barrier",
  """For any path and barriers, the fitted spline is a sequence of cubic pieces, each starting where the last one ends, from the first point of the path to the last one, with every joint at a point of the path; it leaves and arrives along the given end directions and is smooth at joints.
  A curved piece crosses no barrier; where no curve fits between two neighbouring path points, the piece is the straight line between them.""",
  ["inputs"], "every path of distinct points and every set of barrier segments, with any end directions", "No test calls it.", [PP+"route.rs", PP+"solvers.rs"], [dict(name="fit and split", where=PP+"route.rs: reallyroutespline, splinefits"), dict(name="crossing test", where=PP+"route.rs: splineisinside, splineintersectsline")], ["the returned control points"],
  "property testing: sampled pieces against every barrier, exact structure", "Crossings within 0.05 of a barrier's ends, grazing ones and numerically ill-conditioned ones are not decided.")

prop("P09", "Spline fitting takes the widest clear multiple of the best fit",
  """Each piece is the least-squares fit (chord-length parameters, given end directions) of its part of the path, with its end vectors scaled by the largest of the factors 4, 2, 1, ... 1/128, 0 that touches no barrier.
  A part is split only when none of these is clear or the curve is shorter than the path, and then at the path point that is farthest from the fit, where the direction halves the angle of the path; mirroring the input or permuting the barriers changes the result accordingly.""",
  ["inputs"], "every path of distinct points and every set of barrier segments, with any end directions", "No test calls it.", [PP+"route.rs"], [dict(name="least squares", where=PP+"route.rs: mkspline"), dict(name="widths", where=PP+"route.rs: splinefits"), dict(name="split", where=PP+"route.rs: reallyroutespline")], ["the returned control points"],
  "property testing against an independent least-squares fit, and metamorphic relations (mirror images, permuted barriers)", "Nearly singular fits, ties, and candidates within a sampling margin of a barrier are not decided.")

prop("P06", "The cubic solver finds exactly the real roots",
  """For any polynomial of degree up to 3, the solver returns its distinct real roots and their number, to within numerical error, whatever the multiplicities and complex pairs, with a multiple root among them where the coefficients are exact; leading coefficients below 1e-7 count as 0, and for the zero polynomial it reports 4.""",
  ["inputs"], "every polynomial whose roots are not numerically indistinguishable", "No test calls it.", [PP+"solvers.rs"], [dict(name="solve3, solve2, solve1", where=PP+"solvers.rs")], ["the returned roots"],
  "property testing: polynomials generated from known roots, and residuals and sign changes of random ones", "Tolerances scale with the size and distance of roots; near-multiple roots are decided approximately.")

prop("P07", "Triangulation covers a simple polygon exactly",
  """A simple clockwise polygon with n corners, also on straight sides, is cut into exactly n-2 triangles whose corners are corners of the polygon, which do not overlap and together cover it: their areas add up to its area, every side is used once, and every other triangle side is an inner diagonal shared by two triangles.""",
  ["inputs"], "every simple clockwise polygon", "No test calls it.", [PP+"triang.rs"], [dict(name="ear cutting", where=PP+"triang.rs: triangulate, dpd_isdiagonal")], ["the triangles handed to the callback"],
  "property testing with exact integer areas and side counts", "Reached through a hook, since nothing public calls it.", "trellis::pathplan::triang::vp_triangulate under cfg(vp_hooks)")

prop("P08", "Orientation and containment predicates are exact",
  """For coordinates where the arithmetic is exact, the signed area is twice that of the triangle, the winding is its sign (0 within 1e-4 of zero), and betweenness holds exactly for points strictly between two others on their line.
  A point is reported in a clockwise convex polygon exactly if it is inside or on its boundary, and the polygon hit by a point is one that contains it, or none.""",
  ["inputs"], "all triples of points and all convex clockwise polygons", "No test calls them.", [PP+"visibility.rs", PP+"in_poly.rs"], [dict(name="area2, wind, inBetween, polyhit", where=PP+"visibility.rs"), dict(name="in_poly", where=PP+"in_poly.rs")], ["returned values"],
  "property testing against exact integer arithmetic", "Coordinates for which floating-point arithmetic is exact.")

prop("E01", "Elliptic wedges are closed paths along the ellipse",
  """For any center, axes, start and end angles, the path of an elliptic wedge starts at the center, goes straight to the point of the ellipse at the start angle, follows the ellipse with smoothly joined curves through increasing angles to the end angle, and is closed with a line back to the center.
  Every point of the curved part lies on the ellipse to within the approximation error.
  A polyline that is given a path holds the control points of its pieces, with lines as cubic pieces; a move starts it anew and closing leads it back to the start.""",
  ["inputs"], "every center, pair of positive axes, start angle and sweep up to a full turn", "The test only prints one wedge.", [CO+"ellipse.rs"], [dict(name="number and shape of pieces", where=CO+"ellipse.rs: gen_elliptic_path, estimateError"), dict(name="angles to eccentric anomalies", where=CO+"ellipse.rs: initEllipse")], ["the path target's calls", "the polyline's points"],
  "property testing: sampled curve against the ellipse equation", "Distance tolerance follows the library's own threshold where the first axis is the smaller one.")

prop("E02", "Arcs of rotated ellipses are accurate and tightly bounded",
  """For an ellipse of any center, semi-axes (the first not the smaller), and orientation, and an arc from one angle to another, the end points, foci and bounding box are those of the arc; the path generated from it, of lines or cubic curves, with or without the center, starts and ends at the ends of the arc, runs along it once, with every piece ending on the ellipse, and is never farther from it than the threshold given.""",
  ["inputs"], "every such ellipse, orientation, arc, degree (1 or 3) and threshold reachable with 1024 pieces", "Orientation, lines, open arcs, bounds and other thresholds are reached by no public function.", [CO+"ellipse.rs"], [dict(name="arcs", where=CO+"ellipse.rs: initEllipse, computeEndPoints, computeFoci, computeBounds"), dict(name="pieces", where=CO+"ellipse.rs: gen_elliptic_path, estimateError")], ["the calls made to a PathTarget", "end points, foci, bounds"],
  "property testing: implicit equation, extreme points, distance to the nearest point of the ellipse", "Reached through a hook, since nothing public leads to it.", "trellis::common::ellipse::vp_hooks under cfg(vp_hooks)")

prop("L01", "The lexer reads every text as the DOT token rules say",
  """For any text, the lexer gives exactly the sequence of tokens that the rules for identifiers, numbers, quoted strings with escapes, punctuation and white space give, always reaches the end, and never panics.
  At a stray character, a number out of range or with several points, or an unterminated string, it records one error, gives no token once, and goes on behind the faulty part.""",
  ["inputs"], "every text, with any Unicode characters", "The tests have some dozens of short inputs and one sample file; interactions between neighbouring tokens, escapes, and resumption after errors are unbounded.", [LX], [dict(name="scanner", where=LX+": next, parse_ident, parse_number, parse_quoted_string")], ["tokens and number of errors"],
  "property testing / differential against a reference scanner by position", "U+FEFF is left out.")

prop("L02", "Written tokens read back as themselves",
  """Any sequence of tokens, written out with any white space between them or with as little as separates them, is read back as the same sequence without errors; how much and which white space stands between tokens makes no difference.""",
  ["inputs"], "every token sequence and every placement of white space", "The tests fix a few texts.", [LX], [dict(name="scanner", where=LX)], ["tokens"],
  "round-trip property testing", "Numbers and strings are written in the forms the lexer documents.")

prop("L03", "Lexer errors name the line and column where they start",
  """For any text, errors are reported in text order, one line each in the form "(line, col): message", whose line and column, counted from 1 in characters (lines end at line feeds), are those of the character or token at fault; there are error lines exactly if there are errors.""",
  ["inputs"], "every text with any number of lines, errors anywhere and characters of any width", "Tests look at tokens only; expected error texts are given but not compared.", [LX], [dict(name="offset to line map", where=LX+": map_offset_to_line, write_errors")], ["write_errors, errors, has_errors"],
  "property testing against counting lines and columns", "Positions of errors come from the reference scanner.")

prop("B01", "Box predicates and box growth are exact",
  """For any boxes and points, containment of a point or box and overlap are exactly the closed coordinate comparisons (touching counts), expanding gives the smallest box that holds both (also starting from an empty box with infinite corners), and clipping a box to one that it overlaps gives exactly their intersection.""",
  ["inputs"], "all boxes in order, and all points", "No test calls them.", [CO+"geom.rs"], [dict(name="INSIDE, OVERLAP, CONTAINS, EXPANDBP, EXPANDBB, CLIPBB", where=CO+"geom.rs")], ["returned values"],
  "property testing against integer interval arithmetic", "No NaN.")

prop("B02", "Rounding, unit conversions and vector arithmetic are exact",
  """Rounding goes to the nearest integer, halves away from zero; conversions between points and inches (and picas, centimetres, millimetres), integer and floating points and boxes, degrees and radians are inverse to each other up to rounding; minimum, maximum, sign, comparison and betweenness agree with the order of numbers.
  Lengths, distances, approximate equality, and vector sum, difference, product, quotient, and direction from an angle follow their mathematical definitions.""",
  ["inputs"], "all finite numbers and points in range", "No test calls them.", [CO+"arith.rs", CO+"geom.rs", "trellis/src/vec2.rs", "trellis/src/math.rs"], [dict(name="helpers", where=CO+"arith.rs, "+CO+"geom.rs, trellis/src/vec2.rs, trellis/src/math.rs")], ["returned values"],
  "property testing against exact integer arithmetic", "Numbers are multiples of powers of 1/2 up to 1/1024, or next to a half, so that expected values are exact.")

prop("B03", "A two-dimensional array keeps each cell apart",
  """In an array of any number of rows, columns and extra columns, each cell starts with the default value and holds what was last written at its row and column, and writing one cell changes no other.""",
  ["histories"], "all sizes and all sequences of writes within bounds", "No test calls it.", [PP+"array2.rs"], [dict(name="row-major index", where=PP+"array2.rs: Array2::index, index_mut, allocArray")], ["cells"],
  "model-based property testing against a list of rows", "Full comparison after each write.")

prop("C01", "Colour conversions follow the colour models and invert each other",
  """Conversions between red-green-blue and hue-saturation-value give, for every colour, the values of the colour hexagon (hue by sector, with 0 for red and greys, saturation as spread over value, value as the largest channel), and converting there and back gives the same colour.
  The cyan-magenta-yellow-black form of a colour has as black the complement of its largest channel and in the other channels what remains of each complement.""",
  ["inputs"], "all colours with channels from 0 to 1, including greys, pure hues and sector borders", "No test calls them.", [CO+"colxlate.rs"], [dict(name="hsv2rgb, rgb2hsv, rgb2cmyk", where=CO+"colxlate.rs")], ["returned channels"],
  "property testing against the colour hexagon and round trips", "Reached through a hook, since the functions are private.", "trellis::common::colxlate::vp_hooks under cfg(vp_hooks)")

prop("I01", "Run iterators split a slice into maximal runs",
  """Iterating over the runs of a slice gives consecutive parts that together are the slice, in order and without gaps or repetition, each as long as possible: every item of a run is in the given relation to the first item of that run, and the item after a run is not.
  With a key function, the runs are the maximal stretches of items with equal keys; after the last run the iterators stay at the end, and an empty slice has no runs.""",
  ["inputs"], "all slices and relations or key functions, including relations that are not symmetric or transitive", "No test calls them.", ["trellis/src/iters.rs"],
  [dict(name="iter_runs, iter_runs_by_key", where="trellis/src/iters.rs")], ["items of the iterators"],
  "property testing against a direct split", "Reached through a hook, since the module is private.", "trellis::vp_iters under cfg(vp_hooks)")

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        q = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                 why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=p["hook"]))
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")

full = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hooks:"], capture_output=True, text=True).stdout.split()
m = dict(version=1, setup_cmd="bash build.sh",
  hooks=dict(guard="vp_hooks", enable="build.sh builds the harness (path dependencies on /repo) with RUSTFLAGS='--cfg vp_hooks'", source_commits=full),
  checks=[dict(property=p["id"], quick_cmd="./check.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh " + p["id"],
               evidence_file="evidence/%s.json" % p["id"], technique=p["technique"],
               level="exploration", level_note=p["note"]) for p in P],
  not_applicable=[])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
