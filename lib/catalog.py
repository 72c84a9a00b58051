"""The properties: what must hold, why tests cannot settle it, where it is anchored.

gen.py writes properties.jsonl and MANIFEST.json from this file.
"""

CATALOG = []

TECH = ("Runtime monitoring: the real code, rebuilt with AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions, "
        "runs generated hostile workloads while a monitor compares {what}.")


def p(pid, title, statement, over, over_text, why, files, mechanism, observe, what, level_note):
    CATALOG.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": over_text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe},
        "technique": TECH.format(what=what),
        "level_note": level_note,
    })


INPUTS = ["inputs"]
GEO = "src/domain/geometrics/"

p("G01", "Relation between two segments",
  "For any two segments, not both reduced to one point, the relation found between them (apart, crossing, colinear without contact, or overlapping) is the one exact geometry gives, whichever order the segments and their ends are given in: overlapping means colinear with at least one common point, crossing means exactly one common point and not colinear. A point is found on a segment exactly when it belongs to it, ends included.",
  INPUTS, "every pair of segments whose ends are exactly representable, including touching, colinear, degenerate, horizontal, vertical and diagonal ones",
  "Unit tests check some dozens of hand-placed pairs; touching ends, colinear overlaps on diagonals and swapped arguments form combinations they do not sample.",
  [GEO + "segment.cpp", GEO + "segment.hpp"],
  [("Segment::relation_to (segment, point)", GEO + "segment.cpp")],
  ["return values of the geometric queries"],
  "every relation against exact integer arithmetic",
  "Exploration: lattice configurations under several scales and offsets, biased towards contact and degeneracy; exact oracle.")

p("G02", "Intersection, overlap and merge of segments",
  "For any two crossing segments the intersection is their one common point, wherever it is on them, their very ends included; for any two segments that are not crossing there is none. For any two overlapping segments, the overlap is exactly their common part, the merge exactly their union, both keeping the direction (rising or falling) of the line that carries them.",
  INPUTS, "every pair of segments, of any slope, with ends on representable coordinates or on multiples of a decimal step",
  "Unit tests have some pairs with dyadic coordinates and mostly rising slopes; losing a crossing at an end because of rounding, or flipping a falling diagonal, needs other inputs.",
  [GEO + "segment.cpp", GEO + "point.cpp"],
  [("Segment intersection, overlap, merge", GEO + "segment.cpp")],
  ["return values of the geometric queries"],
  "intersections, overlaps and merges against exact arithmetic",
  "Exploration: lattice and decimal coordinates; exact oracle, 1e-7 relative tolerance on inexact crossing points.")

p("G03", "Location of a point relative to a polygon",
  "For any polygon and any point, the point is told to be on the outline exactly when it belongs to one of its edges, and otherwise inside or outside by the even-odd rule, whatever the rotation of the outline, the vertex it starts from, its concavities, its colinear vertices and the vertices or horizontal edges that are level with the point.",
  INPUTS, "every polygon, self-crossing ones included, and every point",
  "Unit tests ask about some points of a few shapes; the classic failures (level with a vertex, with a horizontal edge, beside a reflex vertex) depend on the outline.",
  [GEO + "polygon.cpp", GEO + "segment.cpp"],
  [("Polygon::relation_to(Point)", GEO + "polygon.cpp")],
  ["return value of the location query"],
  "every answer against an exact even-odd oracle",
  "Exploration: rectilinear, star-shaped and arbitrary outlines on a lattice; asked about vertices, middles, points level with vertices, random points.")

p("G04", "Attributes derived from a polygon's outline",
  "For any outline, the polygon's bounding rectangle is the tightest one, its rotation is the sign of its exact area, its edges join its consecutive vertices in a closed loop, and each horizontal or vertical edge has a normal that points out of the polygon. Circles are approximated by points that are all at the radius from the center, evenly spread over a full turn and in the order of the turn.",
  INPUTS, "every simple outline (rectilinear or not), either rotation, any starting vertex; every center and radius",
  "Unit tests build a few shapes; outwardness of every normal of every edge, concave and reversed shapes included, is a universal statement.",
  [GEO + "polygon.cpp", GEO + "bounding.cpp", GEO + "edge.cpp"],
  [("Polygon constructor, detect_rotation, detect_edge_normal", GEO + "polygon.cpp")],
  ["attributes of the polygon and of its edges"],
  "rotation, bounding, edges and normals against exact computations",
  "Exploration: simple polygons of both rotations; normal outwardness decided by stepping off each edge and locating the point exactly.")

p("G05", "Angles between edges and bounding overlaps",
  "For any two directions, the angle found between them is their exact angle between 0 and 180 degrees, whatever the order and the lengths. Two ranges, or two bounding rectangles, are told to overlap exactly when they share a point, in any order and for flat ones too; rectangles that have an area are told to overlap strictly exactly when they share more than a contact.",
  INPUTS, "every pair of vectors, ranges and rectangles",
  "Unit tests sample a few angles and rectangles; symmetry and contact cases are universal statements.",
  [GEO + "edge.cpp", GEO + "bounding.cpp", GEO + "polygon.cpp"],
  [("angle()", GEO + "edge.cpp"), ("does_overlap(), does_overlap_strict()", GEO + "bounding.cpp"), ("does_overlap(RangeZ, RangeZ)", GEO + "polygon.cpp")],
  ["return values of the queries"],
  "angles and overlaps against reference computations",
  "Exploration: random vectors and ranges, degenerate ones included.")

BOARD = "src/domain/board.cpp"
CONF = "src/domain/conflicts/"
MPM = "src/domain/meshline_policy_manager.cpp"
CM = "src/domain/conflict_manager.cpp"
SCENES = "every structure made of the supported primitives, with any materials, priorities, placements and global parameters"

p("P01", "Edges are adjusted to the materials on both sides",
  "Once a structure is processed, a horizontal or vertical edge has its normal considered the other way round exactly when the material right outside of it dominates its own (ports over conductors over dielectrics over air). The outside material is the one of the highest-priority other shape (on equal priority, the most dominant material) whose placement along the normal of the plane touches its own and whose bounding rectangle reaches the edge and extends beyond it on the side its normal points to, else the background material if any. Edges without normal are never reversed.",
  INPUTS, SCENES,
  "Tests place a few shapes around one edge; combinations of several ambient shapes, priorities, z placements and backgrounds are not sampled.",
  [BOARD, "src/domain/material.cpp"],
  [("Board::adjust_edges_to_materials", BOARD), ("material domination order", "src/domain/material.cpp")],
  ["reversal status of each edge after a run"],
  "each edge's reversal status against an oracle recomputed from all shapes",
  "Exploration: random scenes (boxes, multi-boxes, polygons, twins, flat shapes, five backgrounds), every edge of every plane checked.")

p("P02", "Only entirely hidden edges are dismissed",
  "In each plane, an edge is dismissed from the mesh exactly when all of it is hidden by the union of other shapes of at least the same priority whose placement along the normal of the plane touches its own: a part of it is hidden by a shape when it is inside of it, or on its outline with an opposite normal. Any part left visible keeps the edge, and the result depends neither on the order of the shapes nor on how the hidden parts overlap.",
  INPUTS, SCENES + ", identical and abutting shapes included",
  "Tests have a handful of overlapping polygons; coverage by the union of several shapes, coincident outlines and priorities combine without end.",
  [BOARD, CONF + "conflict_edge_in_polygon.cpp", GEO + "polygon.cpp", GEO + "segment.cpp"],
  [("Board::detect_edges_in_polygons", BOARD), ("ConflictEdgeInPolygon::auto_solve", CONF + "conflict_edge_in_polygon.cpp")],
  ["dismissal status of each edge after a run"],
  "each edge's dismissal against exact coverage by intervals",
  "Exploration: small lattices so that contacts abound; exact rational coverage oracle, edges whose break points are not exactly representable are checked with a margin or counted as ambiguous.")

p("P03", "Aligned edges share one mesh line policy",
  "In each plane, all the horizontal (or vertical) edges that have the same coordinate are gathered in exactly one group, and no other edges are in it. Such a group gives one mesh line policy at that coordinate if and only if at least one of its edges is to be meshed: a single line if one of those has no normal, halves if their normals face both ways, otherwise thirds oriented as their common normal (reversed edges counting the other way round).",
  INPUTS, SCENES,
  "Tests align two or three edges; groups of any size, with dismissed and reversed members, are not sampled.",
  [BOARD, CONF + "conflict_colinear_edges.cpp", CM],
  [("Board::detect_colinear_edges", BOARD), ("ConflictColinearEdges::auto_solve", CONF + "conflict_colinear_edges.cpp")],
  ["groups of aligned edges and their policies after a run"],
  "groups and their policies against a recomputation from all the edges",
  "Exploration: random scenes on small lattices, every group of every plane compared.")

p("P04", "Every feature gets its mesh line policy, and nothing else does",
  "Before close policies are merged, the policies of each axis are exactly: one per group of aligned edges that has one to be meshed, one thirds policy oriented as its (possibly reversed) normal per lone horizontal or vertical edge that is to be meshed, one halves policy per angle of diagonal edges (enabled only if that angle is to be meshed on that axis), and one single line per distinct fixed position given by the user, by the elevation of a flat polygon or by a point. Each is on the axis its feature is perpendicular to, at the coordinate of that feature.",
  INPUTS, SCENES + ", fixed lines included",
  "Tests count policies of a few scenes; completeness and absence of extras over all three axes hold for every scene or not at all.",
  [BOARD, MPM, "src/infra/parsers/parser_from_csx.cpp"],
  [("Board::detect_individual_edges", BOARD), ("Board::add_fixed_meshline_policies", BOARD), ("MeshlinePolicyManager::add_meshline_policy", MPM)],
  ["policies of each axis when the step that completes them has run"],
  "the multiset of policies of each axis against the one recomputed from the scene",
  "Exploration: random scenes with curves, points, flat polygons and fixed lines; multiset equality per axis.")

p("P05", "Policies closer than the proximity limit are merged, closest first",
  "When policies have been merged, no two enabled policies of an axis are at the same place or within the proximity limit, and each merge replaced the two closest enabled policies of that moment, which were within the limit and are disabled for good. The replacement is at the place of the only single line of the two if there is exactly one, else half way; it is a single line if one of the two is, thirds if both are thirds facing the same way, else halves.",
  INPUTS, SCENES + " and any proximity limit, zero included",
  "Tests merge two to four policies; chains of merges, where each depends on the previous ones, are histories tests do not sample.",
  [MPM, CONF + "conflict_too_close_meshline_policies.cpp", CM],
  [("detect_closest_meshline_policies", MPM), ("ConflictTooCloseMeshlinePolicies::auto_solve", CONF + "conflict_too_close_meshline_policies.cpp")],
  ["the recorded sequence of merges of each axis and the policies' states"],
  "the recorded merges, replayed one by one, against the rules",
  "Exploration: the sequence of merges of each run is an event log that an offline checker replays.")

p("P06", "Intervals tile each axis between enabled policies",
  "After a run, the intervals of each axis join each enabled policy to the next one by increasing coordinate, with no gap, no overlap and nothing beyond the first and last policies; each one's middle and half width are those of its ends. The number of cells announced is the product of the numbers of lines of the three axes.",
  INPUTS, SCENES,
  "Tests check some intervals of two or three policies.",
  [MPM, "src/domain/mesh/interval.cpp"],
  [("MeshlinePolicyManager::detect_intervals", MPM)],
  ["intervals after a run"],
  "intervals against the sorted enabled policies",
  "Exploration: random scenes, every interval of every axis.")

p("P07", "Mesh lines respect maximal spacing, smoothness and minimal count",
  "The lines of each axis are finite, strictly increasing, and never further apart than the maximal spacing. From each policy towards the middle of the interval on either side, spacings never shrink and never grow by more than the smoothness factor from one to the next, the spacing around the policy itself being the first one; once they have grown, the one that ends at the middle is no smaller either (within 5 %); and there are at least as many lines up to the middle as the minimum asked for.",
  INPUTS, SCENES + ", any smoothness from 1, any positive maximal spacing, any minimal count up to some tens",
  "Tests mesh a few intervals with a few parameters; a numeric guarantee over all spacings and neighbours (policies are shared between intervals) is not settled by samples.",
  ["src/domain/mesh/interval.cpp", "src/domain/mesh/meshline_policy.cpp", MPM],
  [("Interval::auto_solve_d, auto_solve_smoothness, mesh", "src/domain/mesh/interval.cpp"), ("MeshlinePolicyManager::mesh", MPM)],
  ["lines of each axis after a run"],
  "each spacing of the final lines against the limits",
  "Exploration: random scenes and parameters, decimal coordinates included; tolerance 1e-7.")

p("P08", "Lines surround their policies as the policies say",
  "Around an enabled policy that is not at an end of its axis, the two nearest lines are one policy spacing apart and placed by its kind: half a spacing on each side for halves; for thirds, two thirds of it on the side its normal points to and one third on the other; a single-line policy has a line exactly on it. A halves or thirds policy has no line on it, and at the ends of an axis only the inner side has lines. Each line is either the one of a single enabled single-line policy, where that is, or fills one interval, within it; a policy that is not enabled has none.",
  INPUTS, SCENES,
  "Tests mesh a few isolated intervals, where each policy has one neighbour and nothing shrinks its spacing afterwards.",
  ["src/domain/mesh/interval.cpp", "src/domain/mesh/meshline_policy.cpp", MPM],
  [("Interval::mesh, d_init", "src/domain/mesh/interval.cpp"), ("MeshlinePolicy::mesh", "src/domain/mesh/meshline_policy.cpp")],
  ["lines of each axis and the policies' final spacing"],
  "the nearest lines of each policy against its kind and spacing",
  "Exploration: random scenes and parameters; tolerance 1e-7.")

p("P09", "Diagonal edges make zones with refined lines",
  "In each plane there is exactly one angle per vertex of a diagonal edge and one per crossing, at the crossing point, of a diagonal edge with any edge of another shape; on each of the two axes, consecutive angles between which a diagonal edge passes form maximal zones, from their first angle to their last. The first and last angles of a zone get a line on that axis, inner ones only when the directions of their edges differ by at least the minimal angle; intervals whose middle is in a zone, and only those, get the diagonal maximal spacing instead of the general one.",
  INPUTS, "every structure with diagonal or round shapes, any minimal angle and diagonal spacing",
  "Tests of zones use some hand-made angles; zones shared by several shapes and crossings between shapes are not sampled.",
  [BOARD, CONF + "conflict_diagonal_or_circular_zone.cpp", CM, MPM, "src/utils/vector_utils.hpp", GEO + "angle.cpp"],
  [("Board::detect_diagonal_angles, detect_diagonal_zones", BOARD), ("ConflictDiagonalOrCircularZone::solve_angles, solve_intervals", CONF + "conflict_diagonal_or_circular_zone.cpp")],
  ["angles, zones and intervals, step by step"],
  "angles, zones and interval limits against a recomputation from the outlines",
  "Exploration: random polygons with diagonals, spheres and cylinders; crossings are checked on exactly representable outlines only.")

APP = "src/app/openemsh.cpp"
SM = "src/utils/state_management.hpp"
HIST = ["histories", "inputs"]

p("P10", "The result does not depend on how the run is cut or repeated",
  "Running the steps one by one, in several parts or all at once gives the same state after each step and the same written file, for every structure. A file that is parsed again, after any part of another document was processed by the same application, gives what it gives at first; before the first step and after the last one, going further in that direction is told to be impossible and changes nothing.",
  HIST, "every structure and every way to cut the sequence of steps, with another document processed in between",
  "Tests run steps once in a straight line on a fresh object; leftovers of a previous document or of a cut sequence need a history.",
  [APP, BOARD, "src/app/steps.hpp", SM],
  [("OpenEMSH::parse, run, run_next_step, run_from_step", APP), ("Caretaker::reset", "src/utils/state_management.cpp")],
  ["canonical dump of the whole state after each step, written file"],
  "complete dumps of the state after each way to run",
  "Exploration: random structures, random cuts; the dump has every shape, edge, conflict, policy, interval and line.")

p("P11", "Undo, redo, going back and editing are consistent with a straight run",
  "After any sequence of runs, single steps, going back, edits (each followed by what it invalidates), undos and redos, the state is exactly the one reached by running straight the steps and edits that led to it. Undo and redo, and going back or further, are told to be possible exactly when the history has somewhere to go.",
  HIST, "every history of steps, returns, edits of parameters, edges, policies, angles, intervals or zones, undos and redos, with any states pinned for display",
  "Tests undo a step or two on counters; a state that leaks from another branch of the history, or one the memory reclaimed too soon, needs long mixed histories on a real board.",
  [APP, SM, "src/utils/state_management.cpp", "src/utils/tree_node.hpp", BOARD, MPM, CM],
  [("Caretaker::undo, redo, remember_current_timepoint, go_before garbage collection", "src/utils/state_management.cpp"), ("OpenEMSH::go_before, run_from_step", APP)],
  ["canonical dump of the whole state after each operation"],
  "the state after each operation of a random history with a model of the history and a straight replay",
  "Exploration: random histories of tens of operations on random structures; every state visited is compared with a straight replay on a fresh application.")

p("P12", "The mesh follows the structure, not the way it is written",
  "Moving a whole structure, near or far, moves its mesh lines as much; making it, its smallest and largest gaps and its proximity limit larger or smaller scales them; exchanging the axes in turn exchanges their lines; mirroring it (without diagonal edges) mirrors them; listing shapes of any properties in another order, starting an outline from another vertex, or (without diagonal edges, whose crossings depend on directions) drawing it in the other direction or giving a box or an extrusion from its other end changes no line. (Where three or more places to mesh are chained by the proximity limit, the order of merges depends on rounding and nothing is claimed.)",
  INPUTS, "every structure and every such rewriting of it",
  "Tests compare fixed inputs with fixed outputs; relations between the meshes of related structures are universal, and find order dependence or axis mix-ups that expected values cannot.",
  [BOARD, CM, MPM, "src/domain/mesh/interval.cpp", "src/infra/parsers/parser_from_csx.cpp"],
  [("the whole pipeline", BOARD)],
  ["mesh lines of both structures"],
  "the lines of a structure with those of its rewritten twin",
  "Exploration: metamorphic pairs of random structures, tolerance 1e-6 (1e-4 of the scale when scaled).")

p("P13", "What is edited is obeyed by what is processed next",
  "After the spacing, counts or smoothness of intervals, the kind, direction, spacing or use of policies, the minimal angle or spacing of a diagonal zone, or whether edges are meshed or reversed is changed and the steps it matters to run again: the lines of an interval respect its own limits on each side; a policy keeps its kind, direction and use, with at most its spacing; inner angles of a zone get lines by the zone's own angle, its intervals get its spacing; an edge that is alone at its place has a policy exactly if it is to be meshed, in the direction it then has. Other intervals, zones and edges obey what they did, and an axis none of it matters to keeps its lines.",
  ["inputs", "histories"], "every structure and every such change",
  "Unit tests solve each object with the parameters it is made with; no test changes one and processes further.",
  ["src/domain/mesh/interval.cpp", "src/domain/mesh/meshline_policy.cpp", CONF + "conflict_diagonal_or_circular_zone.cpp", BOARD, MPM],
  [("Interval::auto_solve_d, auto_solve_smoothness", "src/domain/mesh/interval.cpp"), ("ConflictDiagonalOrCircularZone::solve_angles, solve_intervals", CONF + "conflict_diagonal_or_circular_zone.cpp")],
  ["states and lines after the steps that follow an edition"],
  "lines, policies and intervals with what was asked for each object",
  "Exploration: random structures, one kind of change each; maximal spacings down to 2 % of an interval, up to 9 lines asked for per side.")

ST = [SM, "src/utils/state_management.cpp", "src/utils/tree_node.hpp"]
p("S01", "Undo history: every object shows the state of the current timepoint",
  "After any sequence of state changes, remembered timepoints, undos, redos, jumps, annotations and pinned timepoints, each object shows the state set last for it on the path from the start to the current timepoint, and none if it did not exist yet. Undo and redo, and the next and previous remembered timepoints, lead where a naive history says and are told to be possible exactly when they are. A state is set only at the present, an attempt anywhere else being refused without effect. What memory reclaiming keeps is unchanged, pinned timepoints included, and it keeps every remembered state that can still be reached.",
  HIST, "every history of operations on any number of objects, objects that exist only in some states included",
  "Tests have some histories of a few steps with two counters; forks, reclaiming and jumps interact over long histories only.",
  ST, [("Caretaker", "src/utils/state_management.cpp"), ("Originator", SM), ("TreeNode", "src/utils/tree_node.hpp")],
  ["states of the objects after each operation, can_undo, can_redo, refusals"],
  "every object's state after each operation of random histories with a naive model",
  "Exploration: random histories of tens of operations; dangling accesses are caught by AddressSanitizer.")

p("S02", "Tree relations: ancestry, order and depth",
  "In any tree, grown and pruned in any order, a node is told to be an ancestor of another, and sorted before it, and common ancestors, paths and depths are found, exactly as by following the parents one by one; a pruned branch disappears with everything below it and nothing else.",
  HIST, "every tree and every sequence of growths and prunings",
  "Tests have one or two small trees.",
  ["src/utils/tree_node.hpp"], [("TreeNode", "src/utils/tree_node.hpp")],
  ["answers of the queries on each pair of nodes"],
  "each pair of nodes with a naive tree",
  "Exploration: random trees of tens of nodes, every pair compared.")

PARSER = "src/infra/parsers/parser_from_csx.cpp"
p("I01", "Primitives become the right outlines in the right planes",
  "Each supported primitive (box, multi-box, polygon, extruded polygon, sphere, cylinder, point, curve) gives in each plane the outlines of its projection there, with its own priority and material, named after its property and numbered, placed along the normal of the plane over its own extent; shapes that are flat in a plane add a fixed line, points and curves add what they must and nothing else. Whatever the axis a shape is laid along, the plane's two axes are never exchanged.",
  INPUTS, "every well-formed document, any unit, negative coordinates and priorities up to the largest included",
  "Tests read a few documents; 8 kinds of primitives by 3 axes by flat, reversed and degenerate extents are combinations they do not sample.",
  [PARSER], [("primitive parsing", PARSER)],
  ["outlines, placements, priorities, names and fixed lines after parsing"],
  "what is read with what an independent writer wrote",
  "Exploration: random documents; outlines compared as cyclic sequences, circles by radius and center.")

p("I02", "Materials, colors and warnings reflect the document",
  "Each property of a document gives one material with its name, its kind (port, conductor, or dielectric or air by its constants) and its fill and edge colors, shared by its primitives; the background material is as given. Whatever is left aside (unsupported properties and primitives, transformed ones, cylinders with a diagonal axis) gives no shape and is told by one warning that lists all kinds and names, and nothing else is told.",
  INPUTS, "every well-formed document, any mix of supported and unsupported properties and primitives",
  "Tests have a few documents with one unsupported thing at a time.",
  [PARSER, "src/domain/material.cpp"], [("property parsing and warnings", PARSER)],
  ["materials of the shapes, background, messages told"],
  "materials and recorded warnings with what an independent writer wrote",
  "Exploration: random documents with unsupported and unknown content; messages are an event log checked exactly.")

p("I03", "Malformed documents are refused or read, never fatal",
  "Whatever the bytes of an input file, parsing it ends, without crash or undefined behaviour, in success or in an error with a reason; a missing file, something that is not XML or has no structure, ill-formed tags, an unsupported coordinate system, a list of lines with something that is not a number, and parameters out of their ranges are refused. Whatever happened, the application then reads a good file exactly as a fresh one would.",
  INPUTS, "every file content",
  "Tests read a few wrong documents; robustness is a statement about all byte sequences.",
  [PARSER, APP], [("ParserFromCsx::parse", PARSER), ("OpenEMSH::parse", APP)],
  ["result of the parsing, sanitizers, state after a good file"],
  "the outcome of spoiled documents, then a good one with a fresh application",
  "Exploration: byte mutations, truncations, hostile attribute values, missing elements, other documents. Only parsing is claimed: meshing absurd dimensions may take for ever.")

p("I04", "Planes that are left aside contribute nothing",
  "When a plane is left aside, it has no outlines and each other plane and the fixed lines are exactly as if nothing was left aside but what the plane itself contributes.",
  INPUTS, "every document and every choice of planes",
  "Tests switch a plane off on one document.",
  [PARSER], [("with_yz, with_zx, with_xy", PARSER)],
  ["outlines of each plane and fixed lines"],
  "outlines of each plane with what an independent writer wrote",
  "Exploration: random documents, every choice of planes.")

p("I05", "Options override the document, which overrides defaults",
  "Each global parameter is the one given by the user, else the one of the document if it is to be read, else the default. Fixed lines are those of the document (if its parameters are to be read, in their own unit), those of its former mesh (if to be kept) and those given by the user, together with those its shapes need, and no others; whether a former mesh was there is told right. Parsing twice gives the same as once, and blanks around numbers change nothing.",
  INPUTS, "every document and set of options",
  "Tests read a document or two with default options; precedence and accumulation are about all combinations.",
  [PARSER, APP], [("parse_oemsh, parse_grid", PARSER), ("override_from_cli", APP)],
  ["global parameters and fixed lines after parsing"],
  "parameters and lines with the rules of precedence",
  "Exploration: random documents with parameters, former meshes and overrides. The unit of a former grid that has one is not claimed.")

SER = "src/infra/serializers/serializer_to_csx.cpp"
p("O01", "Writing changes nothing but the grid and the parameters",
  "The document written is well-formed and is the input (every element, attribute and text, in order, whatever they are) except for the grid of the structure that was read, which has exactly one list of lines per axis asked for (and keeps its attributes), and for the mesher's own parameters, present exactly if asked for. What is missing for that is added. Unless it is to be overwritten, the input file is left untouched.",
  INPUTS, "every document, with any content beside the structure, and every choice of axes and content to write",
  "Tests write one document; preservation is about all content a user may have.",
  [SER, APP], [("SerializerToCsx::visit", SER)],
  ["the written file, compared with the input element by element"],
  "the written document with the input, element by element",
  "Exploration: random documents with foreign content, namesakes elsewhere, missing grids. Comments are not claimed.")

p("O02", "The lines written are the lines computed, without loss",
  "Each list of lines written has the computed coordinates, in increasing order, all of them, none twice, and each is read back as exactly the same number; enabled policies' places are there if and only if asked for.",
  INPUTS, "every result of a run, any unit",
  "Tests write numbers that have few digits; a truncated or merged value needs others.",
  [SER], [("SerializerToCsx::visit", SER)],
  ["lists of lines of the written file, read back"],
  "numbers read back with the state, bit by bit",
  "Exploration: random structures with decimal coordinates and units.")

p("O03", "Saved parameters come back; processing the output again is a fixpoint",
  "When parameters are saved, reading the written document gives back exactly the same proximity limit, smoothness, maximal spacing and minimal count, and processing it again writes the very same document.",
  HIST, "every document and parameters, extreme values included",
  "Tests save one set of parameters that has few digits.",
  [SER, PARSER], [("SerializerToCsx::visit(params)", SER), ("parse_oemsh", PARSER)],
  ["parameters after reading the output, output of a second run"],
  "the second output with the first, and parameters read back",
  "Exploration: random documents and parameters. Other parameters are not saved by design and are not claimed.")

PUML = "src/infra/serializers/serializer_to_plantuml.cpp"
PRETTY = "src/infra/serializers/serializer_to_prettyprint.cpp"
p("O04", "Diagrams are well-formed and complete at any step",
  "After any number of steps, the diagram written is delimited, closes its blocks, declares each name once, and shows every outline, edge, policy (by increasing coordinate), interval, line and conflict, with whether it is to be meshed or enabled, its spacing or coordinate; it draws exactly the arrows that tell the edges, outlines, policies and intervals that each conflict, policy, interval and line comes from or leads to, between declared names only. A diagram asked for without some of its parts lacks these and nothing else. The text form lists every conflict, with its edges or outlines, the ranges it holds and its outcome. Neither changes the state.",
  HIST, "every structure and number of steps done",
  "Tests do not look at diagrams of partial runs.",
  [PUML, PRETTY], [("SerializerToPlantuml::dump", PUML), ("SerializerToPrettyprint::dump", PRETTY)],
  ["the written diagram, the printed text"],
  "declarations, values and arrows of the diagram, and blocks of the text, with the state",
  "Exploration: random structures after any number of steps; names with quotes are not claimed.")

p("A01", "Overwriting is announced exactly when something would be lost",
  "Unless overwriting is forced, writing is announced as overwriting exactly when the target file exists, or is the input that had a mesh, whatever was changed in between (target, format, files around); the text form overwrites nothing and writes no file at all.",
  HIST, "every set of options and every sequence of changes of targets and files",
  "Tests check a few combinations of options on fixed files.",
  [APP], [("OpenEMSH::is_about_overwriting", APP)],
  ["the announcement, files around"],
  "the announcement with the files that are really there",
  "Exploration: random options and file operations in a scratch directory.")

p("A03", "A writing that fails says so and loses nothing",
  "When the output cannot be written in full (full device, missing directory, directory in place of a file) or the input it starts from has disappeared or been spoiled, writing returns an error with a reason, leaves the state as it was and no partial file made from a missing input; a writing to a good place afterwards gives the file it would have given.",
  ["fault_sequences", "inputs"], "every document, each of these faults at the writing",
  "Tests never make a writing fail.",
  [APP, SER, PUML], [("OpenEMSH::write", APP)],
  ["result of the writing, files left, later output"],
  "outcomes under injected faults with those of undisturbed runs",
  "Exploration: faults by full device, directories and vanished inputs.")

p("U01", "Messages reach who they are for, and the right answer counts",
  "A message for a registered receiver is given to that one only, once, and its answer is the answer; any other message is given to every receiver, once each, and the answer is the one of the receiver chosen as interactive, if any. The first to register under a name stays; the last chosen interactive is the only one told so; receivers live as long as the logger.",
  HIST, "every sequence of registrations, choices and messages",
  "Tests have two receivers and a message each.",
  ["src/utils/logger.cpp", "src/utils/logger.hpp"], [("Logger::log", "src/utils/logger.cpp")],
  ["messages recorded by each receiver, answers"],
  "the log of receptions with the rules",
  "Exploration: random histories; receptions are an event log.")

p("U02", "Progress is told to all in order; small containers tell the truth",
  "Each tick or completion of a progress bar is told once, in order, to every display registered before it was built. Membership, runs of consecutive matches, views, reversed maps, signs and casts are what their names say, for empty and degenerate contents too.",
  INPUTS, "every sequence of ticks, every content",
  "Tests sample a few contents.",
  ["src/utils/progress.cpp", "src/utils/vector_utils.hpp", "src/utils/map_utils.hpp", "src/utils/signum.hpp", "src/utils/down_up_cast.hpp"],
  [("Progress::Bar", "src/utils/progress.cpp"), ("find_consecutive_matches", "src/utils/vector_utils.hpp")],
  ["ticks recorded by each display, return values"],
  "recorded ticks and answers with naive computations",
  "Exploration: random contents and tick sequences.")

p("U03", "Each step of the work tells its progress up to its end",
  "While a structure is read, analysed and meshed, every progress bar that a step shows says what it is for, is told at least one advance when it has two or more to tell, never goes back nor beyond its end, is told complete exactly once with nothing told afterwards, and is gone when the step ends.",
  INPUTS, "every structure and every step of its processing",
  "No unit test registers a display while a step runs: what is told depends on how many of each shape, edge and policy there are, from none to many.",
  ["src/utils/progress.cpp", BOARD, CM, MPM, "src/infra/parsers/parser_from_csx.cpp"],
  [("Progress::Bar", "src/utils/progress.cpp"), ("the steps of the pipeline", BOARD)],
  ["bars shown, ticks and completions told to a registered display"],
  "the log of each bar with the rules of a progress",
  "Exploration: random structures; the bars are an event log.")

p("A02", "The command does what its options say, and tells it",
  "Run with an input and valid options, without window, the program writes exactly what the same parameters, overrides, selections of axes, planes and content give in process, in the chosen format and to the chosen place (the input itself when none is given), touches no other file, and exits with success. When it refuses (an existing or already meshed file without being forced), cannot read or cannot write, it exits with failure, says why on the error output, and leaves files as they were. Verbosity changes messages only. Shown progress never goes back, never goes beyond its end, and ends.",
  ["inputs", "configurations"], "every document and every combination of valid options",
  "Unit tests never run the program: its options meet its processing in the command line parser only, whose combinations (format, overwriting, overrides, verbosity, planes) are many.",
  ["src/main.cpp", "src/ui/cli/cli.cpp", "src/ui/cli/logger.cpp", "src/ui/cli/progress.cpp", "src/app/openemsh.cpp"],
  [("cli", "src/ui/cli/cli.cpp"), ("OpenEMSH::is_about_overwriting", "src/app/openemsh.cpp"), ("ProgressBar", "src/ui/cli/progress.cpp")],
  ["process exit code", "standard and error outputs", "files before and after"],
  "each process's outcome, outputs and files with the same work done in process, and every progress bar's events with their bounds",
  "Exploration: random documents and command lines run as real processes; progress bars are recorded by a stand-in for the display library.")

p("A04", "Wrong command lines are refused without harm",
  "Any command line with an unknown option or spare argument, a missing, malformed or out of range value, an unreadable or malformed input makes the program exit with failure and a message on the error output, before anything is written. Help and version are given on standard output with success and do nothing else.",
  ["inputs", "configurations"], "every wrong command line",
  "Unit tests never run the program with arguments; what is validated depends on each option's own rules.",
  ["src/ui/cli/cli.cpp", "src/main.cpp"],
  [("cli", "src/ui/cli/cli.cpp")],
  ["process exit code", "standard and error outputs", "files before and after"],
  "each process's outcome, outputs and files with what the command line deserves",
  "Exploration: valid command lines spoiled in one of many ways, run as real processes.")

p("A05", "Each option sets the parameter it names, and nothing else",
  "Read from any right command line (options in any order, by any of their names, values joined or apart), the parameters are the default ones but for those that are named, which have the values given; the output is the input unless given; the mesher parameters that are named, and no other, replace those of whatever document is read, fixed lines being given in order. An input is needed unless the window is asked for, which no argument at all does.",
  ["inputs", "configurations"], "every combination of options, values, forms and orders",
  "There is no test of the command line parser; options that disturb one another show in some combinations and orders only.",
  ["src/ui/cli/cli.cpp"],
  [("cli, make_overrider", "src/ui/cli/cli.cpp")],
  ["parameters got from each command line, and what overriding other parameters by them gives"],
  "each parameter with the options that were given",
  "Exploration: random right command lines, each read in a process of its own.")

p("Y01", "The Python module hands the model over and takes the mesh back",
  "Meshing a model from Python writes it to the given file, then runs the mesher once on that file with the given arguments (by default the window, verbose), shows what it tells, then reads the file back once: whatever the file is called, and never before the mesher is done. If the mesher fails or is not there, that is raised and nothing is read back. Viewing runs the viewer once on the written file with the options asked for, and reads the file back exactly when editing. Ensuring a simulation path leaves a directory there, empty if cleaned up, else with all it had; nothing else is touched, what links inside of it point to included.",
  ["inputs", "fault_sequences"], "every model, file name, argument list, outcome of the programs, and directory tree, in calls that follow one another",
  "There is no test of the Python module; what goes wrong (a stale file read back after a failure, arguments that leak from a call to the next, a name with a space) needs programs that fail and repeated calls.",
  ["api/python/openemsh.py"],
  [("run_openemsh", "api/python/openemsh.py"), ("run_appcsxcad", "api/python/openemsh.py"), ("ensure_sim_path", "api/python/openemsh.py")],
  ["order of writings, runs and readings", "program arguments", "files before and after", "exceptions"],
  "the log of writings, runs and readings, and files around, with what the call promises",
  "Exploration: recording model and programs, injected failures, and the real mesher; run as an unprivileged user in a scratch directory.")

GUI = "src/ui/qt/"

p("Q01", "The window shows the document as it is now",
  "After opening a document, editing something, running or undoing steps, or moving through the history, both views show exactly the current state: every shape, edge, angle, conflict, policy, interval and line once, with its values, links and place, on each plane and axis it belongs to, and nothing else. Enabled and disabled lines, edges and directions are drawn apart, lines' policies are drawn where they ask for lines, and what is selected looks so. Buttons to undo, redo and walk through steps are enabled exactly when that is possible, and the cell number is the current mesh's.",
  ["inputs", "histories"], "every document and every sequence of user actions in the window",
  "There is no test of the window at all, and what it displays is cached per state: staleness needs particular sequences of edits, undos and steps.",
  [GUI + "main_window.cpp", GUI + "processing_view/processing_view.cpp", GUI + "structure_view/structure_view.cpp", GUI + "structure_view/structure_scene.cpp", GUI + "processing_view/processing_scene.cpp"],
  [("MainWindow::go_to_or_make_current_state", GUI + "main_window.cpp"), ("ProcessingView::populate", GUI + "processing_view/processing_view.cpp"), ("StructureView::populate", GUI + "structure_view/structure_view.cpp")],
  ["items of both scenes (type, identity, text, place, wires)", "what structure items and states' texts draw (lines and inks, on a recording paint device)", "enabled buttons", "cell number label"],
  "both scenes, buttons and labels of the real main window with the board after every user action",
  "Exploration: random documents and user action sequences in the real main window, on an off-screen display.")

p("Q02", "What is entered in dialogs is what is applied, from the right step",
  "Accepting an edition dialog gives the very state that comes from setting the entered values, and nothing else, before the step they matter to and running the following steps again; values left as shown are kept as they are, whatever step the document is at, and the object shows the entered values then (a spacing that meshing may reduce excepted). Cancelled dialogs and invalid entries change nothing. It stays so through undo, redo and step walks.",
  ["inputs", "histories"], "every document, edition and sequence of editions, undos and steps through the window",
  "There is no test of dialogs. Errors show only when later steps consume a value that an earlier edition left or truncated.",
  [GUI + "edit/edit_model.cpp", GUI + "edit/edit_model_edge.cpp", GUI + "edit/edit_model_global.cpp", GUI + "edit/edit_model_interval.cpp", GUI + "edit/edit_model_meshline_policy.cpp",
   GUI + "edit/edit_model_angle.cpp", GUI + "edit/edit_model_conflict_diagonal_or_circular_zone.cpp", GUI + "main_window.cpp", "src/app/openemsh.cpp"],
  [("MainWindow::handle_edition_from", GUI + "main_window.cpp"), ("EditModel*::commit", GUI + "edit/edit_model.cpp")],
  ["full state of the board after every action", "dialogs' content"],
  "the board after each dialog with a windowless replay of the same editions",
  "Exploration: random documents and edition histories through the real dialogs; each is replayed without window.")

p("Q03", "Opening, saving, previewing and closing keep the user's files and work",
  "From the window, a document is written only where the user agreed to, after every due question (an existing file, a file other than the opened one, an already meshed one), and holds what the current state gives; refusing, cancelling, failing, previewing or opening writes nothing else. Closing asks when there is unsaved work, and closes only if it is saved or the user gives it up. A file that cannot be opened is told, and leaves no document to edit, save or close with questions.",
  ["inputs", "histories", "fault_sequences"], "every sequence of openings, savings, previews, changes and closings, with answers to each question and files that fail",
  "There is no test of the window; losing work takes a sequence (save elsewhere, fail, close) that needs simulated users and failing files.",
  [GUI + "main_window.cpp", GUI + "logger.cpp", "src/app/openemsh.cpp"],
  [("MainWindow::save_csx_file", GUI + "main_window.cpp"), ("MainWindow::closeEvent", GUI + "main_window.cpp"), ("MainWindow::on_a_appcsxcad_triggered", GUI + "main_window.cpp")],
  ["files before and after each action", "dialogs that open", "window open or closed"],
  "files, dialogs and the window's state with a model of what the user was promised",
  "Exploration: random user sequences, answers and faults, in a scratch directory, with a stand-in for the external viewer.")

p("Q04", "Views show what is selected and chosen, together",
  "Selecting in a view selects the same things in the other, and highlights exactly what they come from and lead to. The processing view shows everything, what the structure view shows, or the selected chain, as chosen, for the plane and line directions that the structure view displays; buttons tell it. Changing what is displayed keeps the selection as long as it is displayed. It stays so through documents, states and planes.",
  ["inputs", "histories"], "every document and every sequence of selections and display choices",
  "There is no test of the window; both views synchronise through nested signals, per state, so errors need particular sequences.",
  [GUI + "processing_view/processing_scene.cpp", GUI + "structure_view/structure_scene.cpp", GUI + "processing_view/processing_view.cpp", GUI + "structure_view/structure_view.cpp", GUI + "main_window.cpp", GUI + "utils/nodegraph/node.cpp"],
  [("ProcessingScene::on_selectionChanged", GUI + "processing_view/processing_scene.cpp"), ("ProcessingScene::display_structure_view", GUI + "processing_view/processing_scene.cpp"), ("Node::itemChange", GUI + "utils/nodegraph/node.cpp")],
  ["selected, highlighted and visible items of both scenes", "checked buttons"],
  "selections, highlights, visibilities and buttons with a model of the display choices",
  "Exploration: random selections and display choices in the real main window, on an off-screen display.")

p("Q05", "Messages, choices and progress are shown as they are",
  "In the window, a message without choice is shown in the status bar, and one with choices in a dialog that has its text, its complement, its details, the icon of its severity, exactly its choices and the given default one; the answer is the choice that was made. In the terminal, a message is told completely with its severity, once (information only if verbose), and a question asked there is asked again with its choices until one of them is typed, which is the answer; when the input ends before, there is no answer. Where not in charge of answers, neither answers. A progress display shows the work, from none to all of it and what was done so far, as long as it is neither completed nor gone.",
  ["inputs", "histories"], "every message, severity, set of choices, default, answer and sequence of ticks",
  "There is no test of either display; choices, severities and defaults combine.",
  [GUI + "logger.cpp", GUI + "progress.cpp", "src/ui/cli/logger.cpp"],
  [("ui::qt::LoggerSink::log", GUI + "logger.cpp"), ("ui::cli::LoggerSink::log", "src/ui/cli/logger.cpp"), ("ui::qt::ProgressBar", GUI + "progress.cpp")],
  ["message boxes", "status bar", "error output", "answers"],
  "dialogs, status bar, terminal texts and answers with the messages, and progress widgets with ticks",
  "Exploration: random messages, answers and ticks; Qt's own handling of several widgets in a status bar is not claimed.")
