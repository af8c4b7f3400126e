#!/usr/bin/env python3
"""Source of properties.jsonl: run it to rewrite the file."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Evaluating many curve parameters equals evaluating them one by one",
 "Evaluating a curve (any curve class, any derivative order) at a list of parameters returns one result per parameter, in the order of the list, each identical to what a single evaluation at that parameter returns. This holds for every list length, on both sides of the size from which the library switches to parallel execution, and for every way the parallel work is split over and interleaved between threads. The list and the curve are left unchanged, and the element evaluations never conflict with each other. A curve answers everywhere on its own bounds, and each derivative it returns is the slope of the one below.",
 ["schedules", "inputs", "configurations"],
 "every curve class, parameter list (length, container, order, repeats, knots and ends), size gate, and schedule of the parallel work",
 "Tests evaluate a handful of curves at a few sizes and under whatever schedule the machine produced; a lost, duplicated or shifted element, or a conflict between two elements, needs a particular size, split or interleaving.",
 ["gbs/gbslib.h", "gbs/execution.h", "gbs/bscurve.h", "gbs/basisfunctions.ixx", "gbs/curvecomposite.h", "gbs/curvetrimmed.h", "gbs/curveoffset.h", "gbs/curveonsurface.h", "gbs/curveReversed.h", "gbs/curvereparametrized.h"],
 [("bulk evaluation goes through one size-gated parallel transform", "gbs/execution.h transform_threshold"), ("bulk curve entry points", "gbs/gbslib.h / gbs/bscurve.h Curve::values, d_dms, d_dm2s")],
 [("parallel size gate", "element count from which a bulk evaluation runs in parallel", "gbs/execution.h")])
prop("C02", "Evaluating many surface parameters equals evaluating them one by one",
 "Evaluating a surface (any surface class, positions and partial derivatives) at a list of parameter pairs, or at two parallel lists, or on a regular grid, returns one result per requested parameter pair, in the requested order, each identical to what a single evaluation at that pair returns. This holds for every length, on both sides of the size from which the library switches to parallel execution, and for every split and interleaving of the parallel work. The inputs and the surface are left unchanged, and the element evaluations never conflict with each other. Each partial derivative a surface returns is the slope of the one below.",
 ["schedules", "inputs", "configurations"],
 "every surface class, parameter list or grid, derivative order, size gate, and schedule of the parallel work",
 "Tests evaluate a few fixed surfaces on fixed grids under one schedule; grid ordering (u before v), gate boundaries and conflicts between elements are only hit by particular shapes, sizes and interleavings.",
 ["gbs/bssurf.h", "gbs/surfaceofrevolution.h", "gbs/bssanalysis.h", "gbs/execution.h", "gbs/basisfunctions.ixx"],
 [("size-gated parallel transform", "gbs/execution.h transform_threshold"), ("bulk surface entry points", "gbs/bssurf.h Surface::values, d_dmus, d_dmvs, d_dmu2s, d_dmv2s"), ("grid discretization", "gbs/bssanalysis.h discretize")],
 [("parallel size gate", "element count from which a bulk evaluation runs in parallel", "gbs/execution.h")])
prop("C03", "Building a batch of curves equals building each curve on its own",
 "Building a whole batch of curves (interpolation or approximation of many point sets) in one call returns exactly one curve per point set, in order, each identical to the curve the single-set call builds from that set with the same options. It holds for every batch size on both sides of the parallel threshold and for every schedule, including several batches being built concurrently by different callers. Each set is built exactly once and no input is modified.",
 ["schedules", "inputs", "configurations"],
 "every batch size, mixture of point sets, options, gate value, and schedule",
 "The tests build one or two small batches under one schedule.",
 ["gbs/execution.h", "gbs/bscinterp.h", "gbs/bscapprox.h"],
 [("batch helper", "gbs/execution.h build_batch"), ("batch overloads", "gbs/bscinterp.h interpolate, gbs/bscapprox.h approx")],
 [("batch gate", "batch size from which entities are built in parallel", "gbs/execution.h")])
prop("C04", "A failing element of a bulk operation is reported as one ordinary error",
 "When evaluating, building or transforming some element of a bulk operation fails (parameter outside the domain, unusable point set, a throwing user callback, no intersection, memory exhausted), the caller receives an exception it can catch, and the process is never terminated. The error is the same one, for the first failing element in input order, whatever the element count relative to the parallel thresholds, the split of the work and the interleaving. After the error the library and the objects involved remain usable and unchanged.",
 ["schedules", "inputs", "fault_sequences", "configurations"],
 "every position and number of failing elements, every failing kind, every element count around the gates, every schedule",
 "Tests provoke failures only on small serial inputs; the parallel path of the standard library ends the process on an escaping exception, which no passing test can show.",
 ["gbs/execution.h", "gbs/bscurve.h", "gbs/bssurf.h", "gbs/bscanalysis.h", "gbs/transform.h", "gbs/bscapprox.h", "gbs/bssbuild.h", "gbs-mesh/tfi.h"],
 [("exceptions are trapped per element and rethrown after the parallel region", "gbs/execution.h build_batch"), ("domain checks on evaluation", "gbs/bscurve.h, gbs/bssurf.h, gbs/exceptions.h")])
prop("C05", "Transforms and pole conversions touch every element exactly once",
 "Translating, rotating, scaling or applying a user transformation to curves, surfaces and point sets, converting between rational and non-rational poles (adding, splitting, merging and scaling weights), and embedding into a higher dimension apply the operation exactly once to every point, in place in the sequence, with the other data (knots, degrees, weights, bounds) as documented. The result is the same for every number of points and every schedule of the parallel work. The source object of a copying variant is left unchanged.",
 ["schedules", "inputs"],
 "every pole count and dimension, rational or not, every transformation, every schedule",
 "Tests transform a few shapes under one schedule; an element processed twice, skipped or read while being written needs a particular split or interleaving.",
 ["gbs/transform.h", "gbs/transformpoints.h", "gbs/basisfunctions.ixx", "gbs/bsctools.h", "gbs/bsstools.h"],
 [("in-place parallel transform of the pole vector", "gbs/transform.h"), ("weight conversions", "gbs/basisfunctions.ixx merge_weights, separate_weights, add_weights_coord, scale_poles"), ("dimension embedding", "gbs/bsctools.h, gbs/bsstools.h add_dimension")])
prop("C06", "Analysis and search results do not depend on scheduling",
 "Discretization, arc length parametrisation, adaptive sampling, nearest-point, curve/curve and surface/curve searches return the same answer on every execution with the same arguments, equal to the answer of a sequential execution, whatever the split and interleaving of the parallel work. Sampled points lie on the curve at the requested places and in order, arc length laws increase monotonically between the curve's bounds, and a search never returns a point farther than the best of the candidates it examined. The arguments are never modified.",
 ["schedules", "inputs"],
 "every curve and surface, sampling option, tolerance, container, and schedule",
 "Parallel minimum searches and reductions can pick another candidate or read a half-written slot under another interleaving; tests see one schedule and a handful of shapes.",
 ["gbs/bscanalysis.h", "gbs/extrema.h", "gbs/bssanalysis.h", "gbs/bscinterp.h"],
 [("parallel transforms and minimum searches", "gbs/bscanalysis.h, gbs/extrema.h"), ("parallel construction of tangents", "gbs/bscinterp.h build_3pt_tg_vec")])
prop("C07", "Surface and structured-mesh construction does not depend on scheduling",
 "Lofting, Gordon surfaces, surface interpolation and approximation, and transfinite structured meshing produce the same surface or mesh on every execution with the same arguments, identical to a purely sequential execution, whatever the split and interleaving of the parallel work. The constructed entity passes through the data it was built on. Inputs are never modified and concurrent constructions by different callers do not influence each other.",
 ["schedules", "inputs", "configurations"],
 "every network of curves, point grid, option set, and schedule; several simultaneous constructions",
 "Tests build one network at a time under one schedule; conflicting writes, shared scratch data and order-dependent accumulation appear only under other interleavings.",
 ["gbs/bssbuild.h", "gbs/bssinterp.h", "gbs/bssapprox.h", "gbs-mesh/tfi.h", "gbs-mesh/smoothing.h"],
 [("parallel per-section work", "gbs/bssbuild.h build_intersections, get_tg_from_spine"), ("parallel pole rows", "gbs/bssinterp.h"), ("parallel block fill and projection", "gbs-mesh/tfi.h")])
prop("C08", "Shared geometry can be read by many threads at once",
 "Any number of threads may evaluate, query, copy, analyse, export or build from the same curves and surfaces at the same time without synchronisation, as long as nobody edits them. No access conflicts with another, and every thread obtains exactly what it would obtain alone. The shared objects are bitwise unchanged afterwards.",
 ["schedules", "inputs", "histories"],
 "every mix of read-only operations on shared objects of every class, every interleaving, including bulk operations nested in the threads",
 "No test shares an object between threads; a hidden cache or lazily computed member conflicts only when two first uses interleave.",
 ["gbs/bscurve.h", "gbs/bssurf.h", "gbs/curvecomposite.h", "gbs/curvetrimmed.h", "gbs/curveoffset.h", "gbs/curvereparametrized.h", "gbs/curveonsurface.h", "gbs/surfaceofrevolution.h", "gbs/bscanalysis.h", "gbs/extrema.h", "gbs-io/tojson.h"],
 [("const evaluation without hidden mutable state", "gbs/bscurve.h, gbs/bssurf.h and the derived classes")])
prop("C09", "An edit of a curve that fails leaves the curve as it was",
 "If an edit of a curve (knot insertion or removal, degree elevation, trimming, reversal, re-bounding, replacing knots or poles, splitting) fails, because an argument is rejected or memory runs out at any point of the edit, the caller receives the error and the curve is exactly as it was before the call: same degree, knots, poles and bounds, same values everywhere. No memory is lost and the curve can be edited again, with the same result as if the failed call had never been made.",
 ["fault_sequences", "crash_points", "inputs", "histories"],
 "every edit operation, every allocation of it that can fail (first, middle, last), every rejected argument, rational and non-rational curves, arbitrary preceding edits",
 "Tests never run out of memory, and check rejected arguments only for the error, not for the state left behind.",
 ["gbs/bscurve.h", "gbs/bsctools.h", "gbs/knotsfunctions.ixx"],
 [("new state is computed first and then stored", "gbs/bscurve.h edit methods"), ("argument checks before mutation", "gbs/bscurve.h copyPoles, movePoles, changeBounds")],
 [("curve state", "degree, flat knots, poles, bounds: must stay mutually consistent", "gbs/bscurve.h BSCurveGeneral")])
prop("C10", "An edit of a surface that fails leaves the surface as it was",
 "If an edit of a surface (knot insertion, degree elevation, trimming, reversal, swapping directions, re-bounding, replacing poles or knots in either direction) fails, because an argument is rejected or memory runs out at any point of the edit, the caller receives the error and the surface is exactly as it was before the call: same degrees, knots, pole net, orientation and bounds, same values everywhere. No memory is lost and the surface can be edited again, with the same result as if the failed call had never been made.",
 ["fault_sequences", "crash_points", "inputs", "histories"],
 "every edit operation in both directions, every allocation of it that can fail, every rejected argument, rational and non-rational surfaces, arbitrary preceding edits",
 "Tests never run out of memory, and check rejected arguments only for the error, not for the state left behind.",
 ["gbs/bssurf.h", "gbs/bsstools.h", "gbs/knotsfunctions.ixx"],
 [("fail-safe knot insertion: new net computed first, then stored", "gbs/bssurf.h insertKnotU, insertKnotV"), ("argument checks before mutation", "gbs/bssurf.h")],
 [("surface state", "degrees, flat knots, pole net, bounds in both directions", "gbs/bssurf.h BSSurfaceGeneral")])
prop("C11", "Any history of curve edits keeps the geometry it promises to keep",
 "After any sequence of edits (knot insertion and removal within tolerance, degree elevation, trimming, reversal, re-bounding, moving poles, splitting and joining, extending, unifying with other curves, conversions) a curve evaluates, with its derivatives, to what the same sequence applied to an ideal curve gives: insertion and elevation change nothing, trimming restricts, reversal mirrors the parameter, re-bounding maps it affinely, moving poles to reach points or constraints makes it meet them and leaves the other poles, the knots and the bounds alone. Knot vector, pole count, degree and bounds stay mutually consistent after every step. It holds whether or not some operations of the sequence failed in between.",
 ["histories", "inputs", "fault_sequences"],
 "every sequence of edits with every argument (existing knots, ends, values within and outside tolerance), rational and non-rational, 1D to 3D",
 "Tests check single edits on fixed curves; the combinations of edits, multiplicities and parameters that break an invariant are unbounded.",
 ["gbs/bscurve.h", "gbs/bsctools.h", "gbs/bscshaping.h", "gbs/knotsfunctions.ixx", "gbs/basisfunctions.ixx"],
 [("knot algorithms", "gbs/knotsfunctions.ixx"), ("edit methods", "gbs/bscurve.h"), ("split and join", "gbs/bsctools.h")],
 [("curve state", "degree, flat knots, poles, bounds", "gbs/bscurve.h BSCurveGeneral")])
prop("C12", "Any history of surface edits keeps the geometry it promises to keep",
 "After any sequence of edits in either direction (knot insertion, degree elevation, trimming, reversal, swapping the directions, re-bounding, splitting, joining, extending, extracting isoparametric curves) a surface evaluates, with its partial derivatives, to what the same sequence applied to an ideal surface gives; moving its poles to reach constraints makes it meet them and leaves the border, the knots and the bounds alone. Knot vectors, pole net size, degrees and bounds stay mutually consistent after every step, for surfaces whose two directions differ in degree, size and parametrisation. It holds whether or not some operations of the sequence failed in between.",
 ["histories", "inputs", "fault_sequences"],
 "every sequence of edits in u and v with every argument, rational and non-rational, unequal directions",
 "Tests check single edits on a few surfaces, often symmetric in u and v; direction mix-ups and stale sizes show only in combinations.",
 ["gbs/bssurf.h", "gbs/bsstools.h", "gbs/bssshaping.h", "gbs/knotsfunctions.ixx"],
 [("edit methods in u and v", "gbs/bssurf.h"), ("split and join", "gbs/bsstools.h")],
 [("surface state", "degrees, flat knots, pole net, bounds in both directions", "gbs/bssurf.h BSSurfaceGeneral")])
prop("C13", "A triangulation stays a valid mesh through any history of operations",
 "After any sequence of point insertions, edge recoveries, edge flips, edge splits and face removals, a half-edge mesh is structurally sound: every face is a closed loop of its own edges, opposite links are mutual and join the same two vertices, every vertex refers to an edge ending at it, and no freed or foreign element is reachable. A triangulation of a point set uses each point once, apart from points that coincide up to rounding and points the triangulation refuses, all triangles have the same orientation, they cover the convex hull (or the constrained domain) without overlap, and required boundary edges are present. An operation that cannot be done is refused and leaves the mesh as it was.",
 ["histories", "inputs", "fault_sequences"],
 "every point set in general or degenerate position, insertion order, constraint set, and sequence of topological operations",
 "Tests triangulate a few fixed point sets and look at counts; broken links and overlaps depend on the order and position of the insertions.",
 ["inc/topology", "gbs-mesh"],
 [("half-edge operations", "inc/topology/halfEdgeMeshEditors.h"), ("incremental triangulation and edge recovery", "inc/topology (delaunay, boyerWatson)")],
 [("half-edge links", "next, previous, opposite, face and vertex references", "inc/topology/halfEdgeMeshData.h")])
prop("C14", "Meshing results depend only on their arguments",
 "Triangulating, refining, flipping, measuring and querying a mesh gives the same mesh and the same numbers on every execution with the same arguments: it does not depend on where memory was allocated, on thread scheduling, or on random numbers drawn by the process beyond the documented perturbation, which stays within its bound. Parallel measures agree with the sequential ones up to rounding. Refinement ends within its iteration limit and leaves a sound mesh.",
 ["schedules", "inputs", "configurations"],
 "every point set and surface, heap layout, entropy source, and schedule",
 "One process sees one heap layout and one schedule; iteration over address-ordered containers and unsynchronised accumulation show only when these vary.",
 ["inc/topology", "gbs-mesh"],
 [("mesh queries and measures", "inc/topology/halfEdgeMeshGetters.h, halfEdgeMeshQuality.h"), ("refinement", "inc/topology/tessellations.h")])
prop("C15", "Saved geometry reads back the same, or the failure is reported",
 "Writing geometry to a JSON document and reading it back gives the same entities (types, degrees, knots, poles, weights, bounds and values up to the last digits), in the same order. If the disk refuses or loses part of the data (full disk, write or close error, torn file, read error, missing file, truncated or damaged document), the call that met the fault reports it as a catchable error: it never reports success for a document that is not completely stored, never returns geometry read from a document cut short or with missing or mistyped parts as if it were complete, and never crashes. (Numbers are exact up to the JSON library's last digits; a damaged digit in a well-formed document cannot be noticed.) Reads and writes that are merely delivered in small pieces or interrupted change nothing.",
 ["fault_sequences", "crash_points", "inputs"],
 "every entity mix and value, every kind and position of a disk fault during writing or reading, every truncation point",
 "Tests read and write small files on a healthy disk.",
 ["gbs-io/tojson.h", "gbs-io/fromjson.h"],
 [("document writer", "gbs-io/tojson.h write_js_doc"), ("document reader", "gbs-io/fromjson.h parse_file, make_curve, make_surface")])
prop("C16", "Importing points from text is complete or fails",
 "Reading points from a text file gives exactly the points of the file, in order (a file cut between records is a shorter file, and digits cut off its last number cannot be noticed), or the call reports an error. A missing file, a read error in the middle, a record with too few, too many or malformed numbers (a blank line included) is reported as a catchable error and never silently shortens, pads or corrupts the data from which a curve is then built: the curve is the approximation of exactly these points. Header lines, spaces around numbers, line ends, a missing end of the last line and reads delivered in small pieces or interrupted make no difference, nor do other imports running at the same time.",
 ["fault_sequences", "inputs"],
 "every point file and layout, every kind and position of a disk fault or truncation",
 "Tests read a few well-formed files on a healthy disk.",
 ["gbs-io/fromtext.h"],
 [("line reader", "gbs-io/fromtext.h")])
prop("C17", "Running out of memory is reported and damages nothing",
 "When memory runs out at any point of building, evaluating, converting, analysing, intersecting or meshing geometry, the call either fails with the ordinary out-of-memory error or, where the memory was only wanted for a faster path, still returns exactly the result it always returns. The process does not crash, hang or terminate, no other error and no wrong result is returned, a failed call leaks nothing, and every argument and existing object is unchanged, also when several threads are working. Once memory is available again the same call succeeds with the same result as if nothing had happened. (Documents of the JSON library and the half-edge meshes, which own themselves in cycles, are outside of the no-leak part.)",
 ["fault_sequences", "crash_points", "inputs"],
 "every allocation made by the operation as the failing one (once or from then on), every operation and argument, with and without parallel execution",
 "No test makes an allocation fail.",
 ["gbs", "gbs-mesh", "gbs-io", "inc/topology"],
 [("ownership through standard containers and smart pointers", "gbs/*.h"), ("errors pass through the parallel layer", "gbs/execution.h")])

prop("C18", "A wire stays one connected chain of edges through any history of additions",
 "After any sequence of additions, refused and failing ones included, a wire is one chain: every edge starts at the very vertex the edge before it ends at, and the wire is closed exactly when its first and last vertex are the same. An edge that meets an end of an open wire within both tolerances is added there, taking over the wire's vertex, and closes the wire if both of its ends meet; an edge that meets none, or any edge given to a closed wire, is refused. A refused addition, or one that runs out of memory, changes neither the wire nor the edge, and an addition changes no edge already there. Every edge keeps running along the curve it was made of: its vertices stay within tolerance of the ends it reports on that curve, and a vertex that is not on the curve is refused. Closing an open wire closes it.",
 ["histories", "inputs", "fault_sequences"],
 "every sequence of edges (from points, vertices, curves of any kind; open, closed; either end, wrong way round, apart, shared or nearby vertices), tolerances of wire and edges, and failing allocation",
 "Tests build one square of straight edges with exact corners.",
 ["inc/topology/wire.h", "inc/topology/edge.h", "inc/topology/vertex.h"],
 [("vertex fusion", "inc/topology/wire.h addEdge, fuseVertex1, fuseVertex2"), ("edge ends", "inc/topology/edge.h setVertex1, setVertex2")],
 [("wire state", "edges in order, their vertices and parameter range", "inc/topology/wire.h Wire")])

N = [
 ("C20", "Basis functions form a partition of unity and reproduce polynomials", "For every valid knot vector, degree and parameter the basis functions are non-negative, sum to one and are non-zero on at most degree+1 spans.", ["inputs"], "every knot vector, degree, parameter", ["gbs/basisfunctions.ixx"], "basis recursion"),
 ("C21", "Interpolation passes through its data and approximation minimises its error", "An interpolated curve or surface meets every given point and derivative within rounding, and an approximated one is the least-squares fit on its knots.", ["inputs"], "every admissible data set", ["gbs/bscinterp.h", "gbs/bscapprox.h"], "linear systems"),
 ("C22", "Nearest-point and intersection searches find the true optimum", "A nearest-point or intersection search returns the globally nearest pair within its tolerance.", ["inputs"], "every pair of entities", ["gbs/extrema.h", "gbs/bscanalysis.h"], "grid start + local optimiser"),
 ("C23", "Conversions to and from other CAD kernels keep the geometry", "Curves and surfaces converted to and from the OpenCASCADE kernel, and read from IGES files, represent the same geometry.", ["inputs"], "every entity", ["gbs-occt", "gbs-io/iges.h"], "converters"),
 ("C24", "GPU evaluation equals CPU evaluation", "Evaluating with the GPU back end returns the same values as the CPU back end.", ["inputs", "schedules"], "every entity and parameter list", ["gbs-cuda"], "CUDA kernels"),
 ("C25", "The Python interface behaves as the C++ one", "Every operation reachable from Python gives the same result and error as the C++ call it wraps, and objects outlive the Python references they depend on.", ["inputs", "histories"], "every bound function", ["python"], "pybind11 bindings"),
]
for id, t, s, over, text, files, mech in N:
    prop(id, t, s, over, text, "Tests sample a handful of inputs.", files, [(mech, files[0])])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
