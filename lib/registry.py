"""What each property runs: harness, number of cases per tier, what a run must have observed."""

PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


GEOM = "Lattice coordinates under several scales and offsets, biased towards touching, colinear and degenerate configurations; the oracle is exact integer arithmetic. "

prop("G01", harness="geom", quick=12000, thorough=300000,
     needs=["seen_APART", "seen_CROSSING", "seen_COLINEAR", "seen_OVERLAPPING", "points_on", "points_out"],
     rule=GEOM + "Non-trivial: a distinct pair of segments whose four-way relation was compared both ways.")
prop("G02", harness="geom", quick=12000, thorough=300000,
     needs=["intersections", "overlaps", "overlaps_touching"],
     rule=GEOM + "Non-trivial: a distinct pair of crossing or overlapping segments whose intersection, overlap and merge were compared.")
prop("G03", harness="geom", quick=4000, thorough=100000,
     needs=["points_in", "points_on", "points_out", "simple_polygons", "other_polygons"],
     rule=GEOM + "Each polygon (simple or not) is asked about its vertices, its middles, points level with vertices and random points. Non-trivial: a distinct polygon.")
prop("G04", harness="geom", quick=8000, thorough=200000,
     needs=["normals", "ccw", "cw", "colinear", "circles"],
     rule=GEOM + "Non-trivial: a distinct outline whose derived attributes were all compared.")
prop("G05", harness="geom", quick=10000, thorough=200000,
     needs=["z_overlapping", "z_apart"],
     rule=GEOM + "Non-trivial: a distinct pair of vectors whose angle was compared.")

SCENE = "Random structures (materials, priorities, flat shapes, twins, fixed lines, global parameters) through the real parser and pipeline. "


def pipe(pid, quick, thorough, needs, rule, **kw):
    prop(pid, harness="pipe", quick=quick, thorough=thorough, needs=needs, rule=SCENE + rule, **kw)


pipe("P01", 8000, 200000, ["reversed", "straight", "ambient_polygon", "ambient_background", "ambient_nothing"], "Non-trivial: a distinct scene with at least a reversed edge.")
pipe("P02", 8000, 200000, ["hidden_edges", "partly_hidden_edges", "visible_edges"], "Non-trivial: a distinct scene with an edge at least partly hidden.")
pipe("P03", 8000, 200000, ["policy_HALFS", "policy_ONELINE", "policy_THIRDS", "policy_nothing"], "Non-trivial: a distinct group of aligned edges.")
pipe("P04", 8000, 200000, ["angles_off", "angles_on", "colinear_groups", "fixed_lines", "individual", "individual_dismissed"], "Non-trivial: a distinct axis that has policies.")
pipe("P05", 5000, 150000, ["result_HALFS", "result_ONELINE", "result_THIRDS"], "Non-trivial: a distinct merge.")
pipe("P06", 900, 30000, ["intervals"], "Non-trivial: a distinct interval.")
pipe("P07", 900, 30000, ["gap_pairs", "halves", "grown_halves", "many_lines"], "Non-trivial: a distinct interval whose spacings were all compared.")
pipe("P08", 900, 30000, ["lines_above", "lines_below", "onelines", "policies_HALFS", "policies_THIRDS"], "Non-trivial: a distinct policy whose nearest lines were compared.")
pipe("P09", 6000, 200000, ["vertex_angles", "crossing_angles", "inner_flat", "inner_sharp", "zones", "intervals_in_zone", "intervals_out_of_zone"], "Non-trivial: a distinct diagonal zone.")
pipe("P13", 600, 20000, ["intervals_edited", "policies_edited", "edges_edited", "edited_edges_alone", "inner_angles_edited", "intervals_in_edited_zone", "axes_untouched", "halves"], "Then changed and processed further. Non-trivial: a distinct structure and change.")



def hist(pid, quick, thorough, needs, rule, **kw):
    prop(pid, harness="hist", quick=quick, thorough=thorough, needs=needs, rule=SCENE + rule, **kw)


hist("P10", 450, 15000, ["steps", "at-once", "parsed-again", "in-two-parts"], "Non-trivial: a distinct structure whose states after each way to run were compared.")
hist("P11", 480, 15000, ["op_edit_0", "op_edit_1", "op_edit_2", "op_edit_3", "op_edit_4", "op_edit_5", "op_next", "op_previous", "op_redo", "op_undo", "op_run", "straight_ways"],
     "Random histories on them. Non-trivial: a distinct history whose every state was compared with a straight replay.")
hist("P12", 700, 30000, ["translated", "scaled", "mirrored", "turned", "shuffled", "redrawn", "lines"], "Non-trivial: a distinct pair of structures whose lines were compared.")
hist("U03", 400, 15000, ["bars", "ticks", "bars full"], "Non-trivial: a distinct structure whose every bar was followed through all steps.")



def plain(pid, harness, quick, thorough, needs, rule, **kw):
    prop(pid, harness=harness, quick=quick, thorough=thorough, needs=needs, rule=rule, **kw)


plain("S01", "state", 16000, 600000,
      ["op_next", "op_undo", "op_redo", "op_remember", "op_pin", "op_unpin", "op_go", "op_go_foreign", "op_annotate", "op_collect", "op_reset",
       "op_set_before", "op_set_here", "op_drop", "replacements", "refused_replacements", "dropped_by_gc", "collections_that_reclaim", "states_compared"],
      "Random histories of tens of operations on a caretaker and its originators, including objects that exist only in some states. Non-trivial: a distinct history during which all states were compared with a naive model.")
plain("S02", "state", 4000, 600000, ["op_add", "op_erase", "pairs_compared", "sets_compared"],
      "Random growing and pruned trees. Non-trivial: a distinct tree whose every relation was compared with a naive one.")

FILES = "Random documents written by an independent writer and read by the real parser. "
plain("I01", "infra", 12000, 150000, [f"kind_{i}" for i in range(8)] + ["shapes_compared", "circles_compared", "fixed_lines", "left_aside"],
      FILES + "Non-trivial: a distinct document with at least a shape.")
plain("I02", "infra", 12000, 150000, ["colors", "no_colors", "backgrounds", "warnings_primitives", "warnings_properties", "shapes_compared"],
      FILES + "Non-trivial: a distinct document with at least a shape.")
plain("I03", "infra", 12000, 150000, ["accepted", "refused"] + ["form_" + w for w in ("attributes", "bytes", "documents", "elements", "lines", "nothing", "params", "truncated")],
      FILES + "Then spoiled. Non-trivial: a distinct spoiled document, after which a good one was read and compared.", cpu=30)
plain("I04", "infra", 12000, 150000, ["planes_on", "planes_off"], FILES + "Non-trivial: a distinct document and choice of planes.")
plain("I05", "infra", 12000, 150000, ["old_kept", "old_left", "params_read", "params_left", "overridden", "fixed_lines"],
      FILES + "Non-trivial: a distinct document and set of options whose parameters and fixed lines were all compared.")
WRITTEN = "Random documents, processed and written, with content the mesher does not know. "
plain("O01", "infra", 1200, 40000, ["at_root", "under_openems", "in_place", "beside", "grid_added", "params_added", "two_structures"],
      WRITTEN + "Non-trivial: a distinct document and set of options whose output was compared with its input.")
plain("O02", "infra", 1000, 40000, ["lines_compared", "policy_places"], WRITTEN + "Non-trivial: a distinct document and set of options whose lists of lines were compared bit by bit.")
plain("O03", "infra", 800, 30000, ["params_back", "fixpoints", "far"], WRITTEN + "Non-trivial: a distinct document and parameters.")
plain("O04", "infra", 1200, 40000, ["arrows", "Polygon", "Edge", "MeshlinePolicy", "Interval", "Meshline", "Conflict EdgeInPolygon",
                                    "Conflict ColinearEdges", "Conflict TooCloseMeshlinePolicies", "prettyprints", "values", "listed conflicts", "partial_diagrams", "told_segments"],
      WRITTEN + "Non-trivial: a distinct document, drawn after a random number of steps.")
plain("A01", "infra", 12000, 150000, ["would_overwrite", "would_not", "text_forms"],
      "Random options and files around. Non-trivial: a distinct document and set of options.")
plain("A03", "infra", 800, 30000, ["full device failed", "missing directory failed", "directory failed", "input gone failed", "input gone ok", "input spoiled failed", "input spoiled ok"],
      WRITTEN + "With a fault injected at the writing. Non-trivial: a distinct document and fault.")
plain("U01", "utils", 100000, 600000, ["messages", "registered", "set_interactive", "to_all", "to_one", "with_choices"],
      "Random histories of registrations and messages. Non-trivial: a distinct history.")
plain("U02", "utils", 100000, 600000, ["ticks", "runs_compared"], "Random contents and ticks. Non-trivial: a distinct non-empty content.")
COMMAND = "The real program, built with sanitizers, run as a process in a scratch directory. "
plain("A02", "cli", 600, 12000, ["refused_overwriting", "cannot_write", "written_beside", "written_in_place", "bars", "ticks"],
      COMMAND + "Non-trivial: a distinct document and command line whose outcome was compared with the same work done in process.", app=True)
plain("A04", "cli", 600, 12000, ["form " + w for w in ("unknown option", "spare argument", "smoothness", "dmax", "lmin", "no input", "missing input", "directory", "format", "boolean", "fixed line", "spoiled input", "help", "version")],
      COMMAND + "Non-trivial: a distinct wrong command line.", app=True)
plain("A05", "opts", 4000, 200000, ["option " + o for o in ("--add-fixed-meshline", "--diag-dmax", "--diag-lmin", "--diag-minimal-angle", "--dmax", "--force", "--input", "--integrate-old-mesh", "--lmin", "--meshlines", "--no-x", "--no-xy", "--no-y", "--no-yz", "--no-z", "--no-zx", "--output", "--output-format", "--policy-lines", "--proximity-limit", "--read-oemsh-params", "--save-oemsh-params", "--smoothness", "--verbose", "-G", "-f", "-i", "-o", "-v")] + ["no argument"],
      "Random right command lines, each read in a process of its own. Non-trivial: a distinct one whose every parameter was compared.", windows=True)
WINDOW = "Random documents in the real main window, driven by a simulated user. "
plain("Q01", "qt", 240, 6000, ["nodes compared", "places compared", "states looked at", "did a_undo", "did a_redo", "did a_mesh_next", "did a_mesh_prev", "did Edge", "did Global", "did Interval", "did MeshlinePolicy"],
      WINDOW + "Non-trivial: a distinct document and sequence of actions whose every display was compared with the board.", windows=True)
plain("Q02", "qt", 240, 8000, ["editions", "cancelled or invalid editions", "states compared", "did a_undo", "did a_mesh_prev", "dialogs on a Edge", "dialogs on a Global", "dialogs on a Interval", "dialogs on a MeshlinePolicy", "dialogs on a Angle", "dialogs on a ConflictDiagonalOrCircularZone", "kept Edge", "kept Global", "kept MeshlinePolicy"],
      WINDOW + "Non-trivial: a distinct document and sequence of editions replayed without window.", windows=True)
plain("Q03", "qt", 240, 6000, ["saves", "refused saves", "failed saves", "saves to an other file", "failed openings", "closings", "did appcsxcad", "message boxes answered"],
      WINDOW + "Non-trivial: a distinct sequence of openings, savings and closings.", windows=True)
plain("Q04", "qt", 640, 16000, ["did select", "did mode", "did mesh", "did plane", "did page", "did a_undo", "did a_mesh_prev", "displays looked at", "selected items", "visible nodes"],
      WINDOW + "Non-trivial: a distinct document and sequence of selections and display choices.", windows=True)
plain("Q05", "qt", 2000, 60000, ["messages in the status bar", "messages in the terminal", "questions in the terminal", "questions in the window", "quiet messages", "bars completed", "ticks"],
      "Random messages, choices, answers and ticks. Non-trivial: a distinct sequence of them.", windows=True)
prop("Y01", python="pyapi", quick=800, thorough=20000, app=True,
     needs=["runs", "default arguments", "successes", "failures", "missing programs", "real meshes", "real refusals", "viewer runs", "viewer editions",
            "paths there cleaned", "paths there kept", "paths new cleaned", "paths new kept"],
     rule="The real Python module with a recording model and recording (or the real) programs. Non-trivial: a distinct call or directory tree.",
     build_note="/repo/api/python/openemsh.py as it is; the real program built with g++ -fsanitize=address,undefined")
