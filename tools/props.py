#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, obs, state=(), tech=None, level="exploration", note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, obs=obs, state=state, tech=tech, level=level, note=note, na=na))

SIMP = ["simplify.go", "constdp/simplify.go", "constdp/fc_simplify.go", "constdp/decompose.go"]
SEARCH = "seeded search: an adverse case reaches a verdict only through what was drawn; the oracle is an independent recomputation, not the code under test."

prop("C01", "The result does not depend on scheduling",
 "For the same configuration, input and constraints the tool's exit status and every byte of its output, and the vertices the library keeps, are the same under every interleaving of its workers, every processor count, clock and map order.",
 ["schedules", "inputs"], "every interleaving of the concurrent workers on every input, constraint set and configuration",
 "Tests run each case once under whatever schedule the machine gives; nothing compares schedules, and the workers rarely interleave on inputs that small.",
 ["constdp/fc_simplify.go", "constdp/simple_0.go", "constdp/simple_1.go", "constdp/fc_group.go"] ,
 [("fan-out of hulls and lines over worker goroutines, results gathered per worker in order", "constdp/simple_0.go, constdp/simple_1.go, constdp/fc_simplify.go"), ("stable grouping and sorting of hulls by line and range", "constdp/fc_group.go")],
 ["output file", "process exit", "kept vertices of each line"],
 note="Six schedules per case, compared byte for byte. " + SEARCH)

prop("C02", "Every valid run ends, successfully, and leaves nothing running",
 "On every valid input, constraint set and configuration, under every schedule, simplification ends with success: it neither deadlocks, nor panics, nor runs without end, and the library call leaves no goroutine behind.",
 ["schedules", "inputs", "configurations"], "every valid input (degenerate lines included) and configuration under every schedule",
 "The tests hold a few well-behaved lines; livelock and deadlock need degenerate geometry or particular worker interleavings.",
 SIMP + ["constdp/simple_0.go", "constdp/simple_1.go", "split/split.go", "offset/sed.go"],
 [("the deform-and-split loop ends when no hull needs deforming", "constdp/simplify.go, constdp/fc_simplify.go"), ("workers end with their channels and are waited for", "constdp/simple_0.go, constdp/simple_1.go")],
 ["process exit", "scheduler: nothing runnable", "steps executed", "goroutines left"],
 note="Progress is bounded as 2^26 scheduling steps, several times the longest run seen. " + SEARCH)

prop("C03", "Simplification is free of data races and leaves its inputs alone",
 "No two concurrent parts of a run, nor two clients simplifying different lines that share constraints or options, access the same memory without synchronisation when one of them writes, and the caller's coordinates and constraints are unchanged afterwards.",
 ["schedules", "inputs"], "every interleaving of one or several concurrent simplifications, and of readers of the index and users of the queue",
 "The suite is not run under the race detector, never runs two clients at once, and never compares inputs before and after.",
 ["constdp", "hdb", "node/queue.go", "constrain", "ctx"],
 [("hulls handed to workers by pointer, results in per-worker slices", "constdp/simple_0.go"), ("queue guarded by a lock", "node/queue.go")],
 ["race detector report in the simulated process", "coordinates after the call"],
 note="ThreadSanitizer's happens-before check on each simulated run: it sees races the chosen interleaving orders, not only those that strike.")

prop("C04", "Independent lines do not influence one another",
 "With feature-class mode off, what a feature is simplified to depends on that feature, the constraints and the options only: not on the other lines of the file, their number or their order.",
 ["inputs", "schedules"], "every file of lines, every order of its lines and every subset of them",
 "No test runs the same line in two files; the interference would come through shared workers, caches or identifiers.",
 ["simplify.go", "constdp/fc_simplify.go", "encode.go", "main.go"],
 [("each line is decomposed and validated against its own hulls", "constdp/fc_simplify.go"), ("instances are chunked over workers", "constdp/simple_0.go")],
 ["output file, line by line"],
 note="Whole file against permuted file against each line alone, byte for byte. " + SEARCH)

prop("C05", "Output vertices are input vertices, in order, with both ends kept",
 "Every simplified line is a subsequence of its input line's vertices, third ordinates included, that begins with the line's first vertex and ends with its last, and has no vertex twice.",
 ["inputs", "configurations", "schedules"], "every line, constraint set and configuration",
 "Tests compare a few lines with recorded results; nothing states the relation for all lines.",
 ["constdp/node_aggregates.go", "node/nodes.go", "encode.go", "geometry/pln.go"],
 [("the simplified line is read off the end points of contiguous hulls", "constdp/fc_simplify.go, node/nodes.go")],
 ["output file", "kept vertex numbers"],
 note="The third ordinate numbers the vertices in most cases, so the correspondence is exact. " + SEARCH)

prop("C06", "Dropped vertices stay within the threshold of the line that replaces them",
 "Whatever constraints are on, every vertex that was removed is within the configured threshold (perpendicular distance, or synchronised distance for trajectories) of the segment that replaces its stretch of line.",
 ["inputs", "configurations", "schedules"], "every line, constraint set, option set and threshold",
 "Tests look at results for chosen thresholds, and never measure the distance of what was dropped after constraints, splitting and merging have interfered.",
 ["decompose/decompose.go", "constdp/decompose.go", "merge/merge.go", "split/split.go", "offset"],
 [("recursive split at the farthest vertex", "decompose/decompose.go"), ("fragments are merged only within the threshold", "merge/merge.go"), ("hulls made by constraints are split at the threshold", "constdp/decompose.go")],
 ["output file", "kept vertex numbers"],
 note="Distances are recomputed from the output alone. " + SEARCH)

prop("C07", "Geometric relations with constraints are kept",
 "With the geometric relation on, a segment of the output intersects a constraint object exactly when the stretch of the original line it replaces does.",
 ["inputs", "configurations", "schedules"], "every line and every point, line and polygon constraint near it",
 "Tests hold a handful of drawn lines and constraints.",
 ["relate/geom.go", "constrain/bygeom.go", "constdp/validate.go", "knn/neighbours.go"],
 [("each hull is compared with its neighbouring constraints and split while the relation differs", "constdp/validate.go, constrain/bygeom.go, relate/geom.go")],
 ["output file", "kept vertex numbers"],
 note="Intersections are recomputed exactly on integer coordinates. " + SEARCH)

prop("C08", "The minimum distance to constraints is respected",
 "With the distance relation on, no output segment comes nearer to a constraint than the configured minimum distance unless the stretch of line it replaces already does.",
 ["inputs", "configurations", "schedules"], "every line, constraint and minimum distance",
 "Tests hold a handful of drawn lines and constraints.",
 ["relate/dist.go", "constrain/bymindist.go", "constdp/validate.go", "knn/neighbours.go"],
 [("neighbours within the minimum distance are searched and hulls that break it split", "constdp/validate.go, relate/dist.go")],
 ["output file", "kept vertex numbers"],
 note="Distances are recomputed independently. " + SEARCH)

prop("C09", "Constraints stay on their side of the line",
 "With the homotopy relation on, a constraint that touches neither a simplified segment nor the stretch it replaces is never swept over by replacing one with the other: it is not enclosed between them.",
 ["inputs", "configurations", "schedules"], "every line and every constraint near it",
 "Tests check chosen pictures; sidedness depends on the order in which vertices collapse and on self-crossing lines.",
 ["relate/dir.go", "homotopy", "constrain/byside.go", "constdp/validate.go"],
 [("chain deformation around constraint vertices", "homotopy/deform.go"), ("hulls whose deformation is blocked are split", "constdp/validate.go")],
 ["output file", "kept vertex numbers"],
 note="The oracle is the winding number of the closed curve stretch-plus-segment about the constraint. " + SEARCH)

prop("C10", "A line does not come to cross itself",
 "With self-intersection avoidance on, two segments of a simplified line meet only where the stretches of the original line they replace meet; consecutive ones do not come to lie on each other.",
 ["inputs", "configurations", "schedules"], "every line and threshold",
 "Tests check chosen lines; the order in which conflicting hulls are found and deformed matters.",
 ["deform/ln.go", "deform/noncontig.go", "deform/contig.go", "constrain/byself.go", "constdp/simplify.go"],
 [("hulls near each other are compared and the wider one deformed until none conflict", "constrain/byself.go, deform/ln.go")],
 ["output file", "kept vertex numbers"],
 note="Intersections are recomputed exactly on integer coordinates. " + SEARCH)

prop("C11", "Lines of a feature class do not come to cross each other",
 "With self-intersection avoidance on in a feature class, segments of two simplified lines meet only where the stretches of the original lines they replace meet.",
 ["inputs", "configurations", "schedules"], "every set of lines",
 "Tests hold a few drawn classes; conflicts depend on identifiers, neighbours and the order of processing.",
 ["deform/cls.go", "deform/common.go", "constrain/bycls.go", "constdp/fc_simplify.go", "constdp/simple_0.go"],
 [("hulls of all lines share one index; conflicting neighbours are deformed", "constrain/bycls.go, deform/cls.go")],
 ["output file", "kept vertex numbers"],
 note="Intersections are recomputed exactly on integer coordinates. " + SEARCH)

prop("C12", "Shared vertices are kept",
 "With planar self-intersection preservation on, a vertex at which a line meets itself, or in a feature class another line, at vertices of both is kept on every line through it; and a vertex that a caller of the library names is kept.",
 ["inputs", "configurations", "schedules"], "every set of lines with coincident vertices",
 "Tests hold a few junctions; what is lost depends on sort order, duplicates and neighbouring hulls.",
 ["lnr/self.go", "lnr/fc.go", "lnr/vertices.go", "constrain/toself.go", "constrain/split.go"],
 [("coincident vertices are found by sorting and hulls split there", "lnr/fc.go, lnr/self.go, constrain/split.go")],
 ["output file", "kept vertex numbers"],
 note="Coincidence is exact equality of coordinates. " + SEARCH)

prop("C13", "Crossing segments of a line are kept",
 "With non-planar self-intersection preservation on, when two segments of an input line meet anywhere but at a vertex of both (they cross, touch or overlap), the end vertices of both are kept.",
 ["inputs", "configurations", "schedules"], "every self-crossing line",
 "Tests hold a few self-crossing lines.",
 ["lnr/self.go", "constrain/toself.go", "constrain/split.go"],
 [("crossings are found through an index of segments and hulls split there", "lnr/self.go, constrain/split.go")],
 ["output file", "kept vertex numbers"],
 note="Meeting points are recomputed exactly. " + SEARCH)

prop("C14", "Every linear feature comes out once, in order, in shape and with its properties",
 "For every valid input file the output holds exactly one feature per linear input feature, in input order, with as many parts (more than one as a multi geometry), third ordinates kept unless all are zero, and unchanged properties, numbers exactly as written; other lines are skipped, inputs stay untouched, and earlier content of the output file is gone.",
 ["inputs", "configurations"], "every mixture of features, bare geometries, collections, blank and non-linear lines",
 "Tests read one file per form; mixtures, skipped lines between others and odd properties are not covered.",
 ["geometry/geojson.go", "geometry/geojson_geom.go", "encode.go", "main.go", "io.go"],
 [("each line keeps the number of its feature and part in its identifier", "geometry/geojson.go"), ("lines are grouped by that number on output", "encode.go")],
 ["output file", "input files"],
 note="The output is parsed by an independent reader. " + SEARCH)

prop("C15", "What cannot be read or understood is refused, and nothing is overwritten",
 "When the configuration, input or constraints cannot be read or are malformed, the tool ends with a failure and leaves every file as it was, including an earlier output.",
 ["inputs", "fault_sequences", "schedules"], "every malformed argument, configuration, input or constraint, and every failing open, stat or read, at any point",
 "Tests never fail a system call and hardly any malformed input; success is all they check.",
 ["main.go", "cfg.go", "io.go", "geometry/geojson.go"],
 [("errors while reading are fatal before output is opened", "main.go, geometry/geojson.go")],
 ["process exit", "all files"], level="fault_enumeration",
 note="Every read-side system call of the fault-free run is failed in turn, with drawn error codes; one failure or a lasting one, alone or among short and interrupted reads; text damage is drawn from 36 kinds.")

prop("C16", "Success is reported only when the output is completely written",
 "When opening, writing or closing the output fails, or the disk fills, at any call, the tool does not report success unless the output file nevertheless holds exactly what a fault-free run writes; it never alters its inputs; and once the fault is gone, the tool run again there writes the right output.",
 ["fault_sequences", "inputs", "schedules"], "every write-side system call failing, after any short write, with any error",
 "Tests never fail a write or a close.",
 ["io.go", "main.go"],
 [("errors of write and close are checked and fatal", "io.go, main.go")],
 ["process exit", "output file"], level="fault_enumeration",
 note="Every write-side system call of the fault-free run is failed in turn, close included (with the data lost).")

prop("C17", "Interrupted and short system calls change nothing",
 "Reads and writes that transfer less than asked or are interrupted by signals, in any pattern, and whether the configuration comes as a file or inline, leave exit status and output the same.",
 ["fault_sequences", "inputs", "schedules", "configurations"], "every pattern of short and interrupted transfers",
 "Tests read local files in one piece.",
 ["io.go", "geometry/geojson.go", "main.go", "cfg.go"],
 [("buffered reading by lines and looping writes", "io.go, geometry/geojson.go")],
 ["process exit", "output file"],
 note="Three drawn patterns per case against the plain run, byte for byte. " + SEARCH)

prop("C18", "A kill at any point leaves a recoverable state",
 "If the process is killed at any moment, the output path holds its earlier content, nothing, or a prefix of the right output, every other file is unchanged, and running the tool again there, for the same or another input, produces the right output.",
 ["crash_points", "inputs", "schedules"], "every point of execution: any scheduling step, before, after and inside any system call",
 "No test kills the tool.",
 ["io.go", "main.go"],
 [("the output is opened only when all of it has been computed, and written in order", "main.go, io.go")],
 ["files after the kill", "second run"], level="fault_enumeration",
 note="Crash points: before, after and inside each late system call of the fault-free run (also in the middle of a call cut short), drawn scheduling steps, and a second kill during the run that follows. Process kill, not power loss: what was written survives.")

prop("C19", "The hull queue is linearizable",
 "Concurrent appends, removals at either end, looks and size queries on the shared queue behave as some sequential order of them on a double-ended queue that respects real time; an operation that fails on an empty queue does not block later ones.",
 ["schedules", "histories"], "every concurrent history of every client",
 "Its tests use one goroutine.",
 ["node/queue.go", "node/nodes.go"],
 [("one lock around every operation", "node/queue.go")],
 ["results of each call, with invocation and response order"],
 note="Porcupine decides linearizability of each recorded history against a sequential deque.")

prop("C20", "The spatial index answers like a plain set of boxes",
 "After any history of loading, removing and clearing, with any node capacity, search, collision, listing, emptiness and nearest-neighbour queries answer exactly as a linear scan of the current content would, also when several clients read at once.",
 ["histories", "schedules", "inputs"], "every history of operations and every concurrent set of readers",
 "Tests hold a few fixed histories and mostly one capacity.",
 ["hdb", "knn"],
 [("R-tree with splits, bulk loading and condensing", "hdb/insert.go, hdb/load.go, hdb/remove.go, hdb/split.go"), ("best-first nearest neighbours", "hdb/knn.go")],
 ["query results"],
 note="Model-based: a plain list of boxes. " + SEARCH)

prop("C21", "Simplifying again, with others, or by the tool gives the same",
 "Simplifying the same line objects repeatedly, with options, constraints or the set of lines changed in between, or from several clients at once, gives each time what a fresh run with those options gives; instances, one-by-one calls and the command-line tool agree.",
 ["histories", "schedules", "configurations"], "every sequence of calls, option and constraint changes, and every concurrent set of clients",
 "Tests call each object once or twice and alone.",
 ["constdp/constructor.go", "constdp/simplify.go", "constdp/fc_simplify.go", "state/state.go", "simplify.go"],
 [("hulls and results are cleared at the start of each call", "constdp/simplify.go, constdp/fc_simplify.go, constdp/decompose.go")],
 ["kept vertex numbers", "output file"],
 note="Each call is compared with a fresh single-client run. " + SEARCH)

prop("C22", "Crossings that exist survive, close to where they were",
 "With self-intersection avoidance on, where two stretches of the input (of one line, or of two lines of a class) meet, the segments that replace them still meet, and a crossing moves by at most the configured non-planar displacement.",
 ["inputs", "configurations", "schedules"], "every pair of crossing stretches and every displacement",
 "Tests hold a few crossing lines.",
 ["deform/noncontig.go", "deform/cls.go", "deform/ln.go", "constdp/simple_0.go"],
 [("non-contiguous hulls whose intersection moves farther than the displacement are deformed", "deform/noncontig.go")],
 ["output file", "kept vertex numbers"],
 note="Crossings and their displacement are recomputed independently; stretches that both keep a common vertex or are both single segments have nothing to lose and are left out. " + SEARCH)

prop("C23", "Without constraints no more is kept than the textbook algorithm keeps",
 "With every option off, the kept vertices are among those that recursive splitting at the farthest vertex (Douglas-Peucker, or its synchronised-distance form) selects at the threshold; the library's plain simplifier keeps exactly those.",
 ["inputs", "schedules"], "every line and threshold",
 "Tests compare a few lines with recorded results.",
 ["decompose/decompose.go", "dp/dp.go", "offset", "split/split.go", "merge/merge.go"],
 [("recursive decomposition by maximum offset", "decompose/decompose.go, offset/dp.go, offset/sed.go")],
 ["output file", "kept vertex numbers"],
 note="An independent implementation recomputes the selection; lines whose farthest vertex is tied within rounding are left undecided. Short stretches may be merged further within the threshold (C06). " + SEARCH)

prop("C24", "In a class a line depends only on the lines it can meet",
 "What the lines of a feature class are simplified to does not depend on the order of the features, on lines that lie apart from all others, or on whether lines are parts of one feature or features of their own; lines too far apart to meet come out as if alone, and one line alone comes out the same as a class or as an instance.",
 ["inputs", "schedules", "configurations"], "every feature class, every order of it and every addition or removal of lines that cannot meet the others",
 "No test simplifies a class twice, in another order or with other lines; interference comes through shared indexes, identifiers, and the order in which hulls are deformed.",
 ["constdp/fc_simplify.go", "constdp/simple_1.go", "constdp/fc_group.go", "deform/cls.go", "hdb"],
 [("hulls of all lines share one index and are selected by range and distance", "constdp/fc_simplify.go, constdp/simple_1.go"), ("hulls are attributed to lines by identifier", "constdp/fc_group.go")],
 ["output file, line by line"],
 note="Metamorphic: a class and up to three variants, each under a schedule of its own, compared exactly. " + SEARCH)

prop("C25", "Constraints act only where they are, and options only when on",
 "Constraints that lie beyond the minimum distance from the convex hull of every line, the order of the constraints, their repetition, relations switched on without constraints, and parameters of options that are off change nothing in the result.",
 ["inputs", "schedules", "configurations"], "every case, every set of remote constraints, every order of them and every value of an unused parameter",
 "Tests fix one constraint set per line; none adds, permutes or repeats constraints.",
 ["constdp/simple_0.go", "constdp/simple_1.go", "constrain", "homotopy", "relate", "knn", "opts/opts.go"],
 [("constraints are selected around each hull by nearest-neighbour search", "knn, constrain"), ("each relation is tested under its option", "constrain")],
 ["output file, line by line"],
 note="Metamorphic: a case and up to three variants, each under a schedule of its own, compared exactly. " + SEARCH)

prop("C26", "Equal content in another presentation gives the same result",
 "The result depends on what the files mean, not on how they say it: the spelling of configuration, input and constraints (order of members, white space, escapes, number format, members not asked for, line ends), features as bare geometries, features or collections, constraints as multi geometries, skipped lines in between, configuration as a file or inline, where the files lie and how their paths are spelled, even when the output takes the place of an input; nor on heights of constraints or whether a third ordinate of zero is written; nor, for dp, on third ordinates, nor on the unit of length (scaling by powers of two).",
 ["inputs", "configurations", "schedules"], "every input and every equivalent presentation of it",
 "Tests read one spelling of each input.",
 ["cfg.go", "main.go", "parser.go", "geometry/geojson.go", "geometry/geojson_geom.go", "io.go", "encode.go", "offset/dp.go"],
 [("files are read line by line as JSON values", "geometry/geojson.go, cfg.go")],
 ["output file"],
 note="Metamorphic: a case and up to three variants, each under a schedule of its own, compared byte for byte (lines for scaling and third ordinates). " + SEARCH)

exec(open(os.path.join(here, "tools", "more.py")).read()) if os.path.exists(os.path.join(here, "tools", "more.py")) else None

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["obs"], hook_needed=None)
        if p["state"]: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"], anchors=a)) + "\n")
        assert len(p["title"]) <= 80, p["id"]
m = dict(version=1, setup_cmd="./check.sh build", checks=[], not_applicable=[],
 notes="No hooks in /repo: the seams are put in by build overlays (sim/build.go) over the Go library and the tree. Replay: ./check.sh replay FILE.")
for p in P:
    if p["na"]:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="./check.sh " + p["id"], thorough_cmd="./check.sh " + p["id"],
      technique=p["tech"] or "deterministic simulation: seeded search over schedules" + (", faults and crash points" if p["level"] == "fault_enumeration" else ""), level=p["level"], level_note=p["note"]))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
