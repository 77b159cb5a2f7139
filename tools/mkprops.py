#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=hook)))

O, G, S, GEN = "optics3d.py", "general_optics.py", "Shapes/shapes.py", "general.py"

p("C01", "Batch tracing does not depend on order or thread interleaving",
  "When many rays are traced against one shared set of optics, each ray follows exactly the path and ends in exactly the state (position, direction, stopped or not) it would have if it were traced alone against freshly built optics. This holds whatever order the rays are traced in, however traces running on different threads interleave, and also when several rays are launched from the same position array. Tracing never modifies an array the caller supplied.",
  ["schedules", "histories", "configurations"],
  "Every scene, every set of rays, every tracing order, every interleaving of traces on caller threads (preemption between any two bytecodes of the tracer).",
  "The tests intersect single rays with a single sphere or rectangle; none traces two rays through the same optics, none runs more than one thread, and none runs a trace at all.",
  [O, G, S],
  [("the trace loop keeps its working state in locals and on the ray", "optics3d.py Ray.run"),
   ("intersection tests only read the shape", "Shapes/shapes.py *.test_intersect"),
   ("movement rebinds the position instead of updating it in place", "optics3d.py Ray.fly")],
  [("optics list", "shared by all rays", "optics3d.py Ray.run"), ("Ray.position/direction/point_history/blocked", "per ray", "optics3d.py Ray")],
  ["Ray.point_history", "Ray.position", "Ray.direction", "Ray.blocked"])

p("C02", "Detectors record every arrival exactly once",
  "A normal ray that arrives at a detector stops there and adds exactly one record to that detector, holding the arrival point and the wavelength of the ray. Nothing else adds, drops, duplicates or changes a record: not a probe ray, not a ray that passes by, not running a stopped ray again, not the order or interleaving of traces; and each detector holds only its own arrivals. A trace aborted while arriving leaves either no record or that one complete record.",
  ["schedules", "histories", "fault_sequences", "crash_points"],
  "Every order and interleaving of traces ending on shared detectors, every repetition of runs, every abort point.",
  "No test uses a detector.",
  [O],
  [("the arrival blocks the ray and appends one row", "optics3d.py Detector.do_intersect"),
   ("a blocked ray does not enter the trace loop", "optics3d.py Ray.run"),
   ("probe rays are stopped before the optic acts", "optics3d.py Ray.run")],
  [("Detector.hit_data", "list of rows x,y,z,wavelength", "optics3d.py Detector")],
  ["Detector.hit_data", "Ray.blocked"])

p("C03", "A trace can be cut, checkpointed and resumed without changing anything",
  "Cutting one trace into several runs, by interaction limits or by travel limits, gives the same path, the same final state and the same detector records as a single run of the same total length, apart from additional points on a straight stretch where a travel limit fell. This holds also when other rays are traced, or the same ray and optics are copied or serialised and restored as after a restart, between the runs.",
  ["histories", "crash_points", "schedules"],
  "Every sequence of cuts of a trace, with any other activity and any checkpoint/restore between the runs.",
  "No test runs a ray twice, limits a run, or copies or pickles a scene.",
  [O, S],
  [("everything the next step needs is on the ray: position, direction, blocked", "optics3d.py Ray.run"),
   ("rays, optics and shapes are plain picklable objects", "optics3d.py, Shapes/shapes.py, general_optics.py BinaryTree")],
  [("distance_remaining, interaction_count", "budget of one run", "optics3d.py Ray.run")],
  ["Ray.point_history", "Detector.hit_data"])

p("C04", "Travel and interaction budgets are exact and the recorded path is faithful",
  "In any sequence of runs a ray is moved by at most the maximum distance and through at most the maximum number of interactions of each run; a ray that neither stops nor exhausts its interactions travels exactly the maximum distance, and a stopped ray does not move. Every run terminates. The recorded path only grows, starts at the launch point, ends at the current position, and each of its stretches runs along the direction the ray had there, which stays a unit vector.",
  ["histories", "inputs", "fault_sequences"],
  "Every sequence of runs with any distances and interaction limits, over any scene, including after aborted runs of other rays.",
  "No test calls run() or fly(), so neither the budget nor the recorded path is observed.",
  [O],
  [("distance_remaining and interaction_count loop conditions", "optics3d.py Ray.run"),
   ("hits beyond the remaining distance are ignored and the ray flies the remainder", "optics3d.py Ray.run"),
   ("fly appends the position it reached", "optics3d.py Ray.fly")],
  [("distance_remaining", "what is left of the run's travel", "optics3d.py Ray.run"), ("point_history", "recorded path", "optics3d.py Ray")],
  ["Ray.point_history", "Ray.position"])

p("C05", "A ray always meets the nearest surface ahead, in any optic order",
  "Within its remaining travel a ray always interacts next with the nearest optical surface ahead of it: it never skips a nearer surface, never acts on one that lies behind it, and never interacts again with the surface it is just leaving (points closer than the clipping floor of 1e-8 count as the same point). The path does not depend on the order in which the optics are listed, also when they are re-listed between runs, nor on annotations, filters, windows or other optics that the ray never reaches.",
  ["schedules", "histories", "configurations", "inputs"],
  "Every scene and ray, every listing order of the optics (changed at any pause of the trace), every set of additional optics off the path, at every scale of an optical bench.",
  "The tests ask one shape at a time whether it is hit; which optic wins, and what happens after the first hit, is never exercised.",
  [O, S],
  [("minimum over optics of the distance to the intersection point", "optics3d.py Ray.run"),
   ("clipping floor that rejects the surface just left", "optics3d.py INTERSECT_CLIPPING_FLOOR, Shapes/shapes.py INTERSECT_CLIPPING_FLOOR"),
   ("only positive ray parameters count", "Shapes/shapes.py *.test_intersect")],
  [("min_distance, intersected_optic", "current nearest candidate", "optics3d.py Ray.run")],
  ["Ray.point_history"])

p("C06", "An aborted trace is contained and leaves everything else as it was",
  "If a trace is aborted at any point by an exception (user interrupt, failed allocation, failing output, an error raised by one optic), that exception reaches the caller. The recorded path of the aborted ray is a beginning of its undisturbed path. Optics, detectors, every other ray, and traces still running on other threads behave exactly as if the aborted trace had never been started.",
  ["crash_points", "fault_sequences", "schedules"],
  "Every point (line of the tracer) at which an exception can strike, every exception kind, with rays traced before, after and concurrently.",
  "No test injects a failure; the point at which an interrupt or failed allocation lands cannot be sampled by a unit test.",
  [O, S, G],
  [("no state is parked on optics during a trace", "optics3d.py Ray.run and *.do_intersect"),
   ("no handler in the tracer swallows exceptions", "optics3d.py, Shapes/shapes.py, general_optics.py")],
  [("Optic/Shape attributes", "must be left untouched", "optics3d.py, Shapes/shapes.py")],
  ["exception at the call of run()", "Ray.point_history", "later traces"])

p("C07", "The trajectory log is passive and faithful, also when the output fails",
  "Turning trajectory printing on never changes the path, state or detector records of a ray. The log lists, in order and to the printed precision, the launch point and then every point the ray reaches (again when it turns there), and it never lists a point that was not reached. When writing the log fails, the error reaches the caller, and what was logged up to then is a beginning of the undisturbed log and covers every point reached except at most the last.",
  ["fault_sequences", "inputs", "histories"],
  "Every trace, every write of the log at which the output stream can fail, every kind of output error.",
  "No test captures the printed trajectory; all test rays have printing off.",
  [O, GEN],
  [("each move prints the ray after recording the point", "optics3d.py Ray.fly"),
   ("number formatting with fixed precision", "general.py to_precision"),
   ("formatting of a ray", "optics3d.py Ray.__repr__")],
  [("sys.stdout", "log destination", "optics3d.py print calls")],
  ["standard output", "Ray.point_history"])

p("C08", "Drawing and inspecting a scene never changes it",
  "Drawing optics in any supported view, printing rays or optics, reading plot data, or asking for the refractive index at points, at any moment before, between or (from another thread) during traces, leaves every later path, final state and detector record exactly as it would have been without it. This holds also when a drawing fails half way. Vectors the caller passes to drawing or geometry helpers are not modified.",
  ["histories", "schedules", "fault_sequences"],
  "Every interleaving of traces with draw, repr, plot-data and index queries, and every point at which a draw can fail.",
  "No test draws anything, and none compares traces before and after an inspection.",
  [O, G],
  [("drawing works on matplotlib patches built from the optic's values", "optics3d.py *.draw"),
   ("rotation helper used for drawing", "general_optics.py rotation_matrix, pathpatch_2d_to_3d"),
   ("rotation helper used for intersecting cylinders", "general_optics.py rotation_matrix2")],
  [("Optic.normal, InfiniteCylinder.direction", "vectors handed to the rotation helpers", "optics3d.py, Shapes/shapes.py")],
  ["Ray.point_history", "Detector.hit_data"])

p("C09", "Scene probes are well formed for every random stream and stay inert",
  "Adding N probe rays keeps the rays already listed, unchanged and in place, and appends exactly N probes, each starting at the given radius from the given centre and aimed at the centre with a finite unit direction, whatever the random stream delivers, including null or nearly null vectors, which are drawn again. Reseeding the generator reproduces the same probes, and the probes cover all directions evenly. A traced probe stops at the first surface it meets and leaves no trace on any optic or other ray.",
  ["inputs", "fault_sequences", "histories"],
  "Every random stream (ordinary seeds and streams salted with degenerate draws), every count, centre and radius, any other rays traced around the probes.",
  "No test creates probes; a unit test cannot make the global random generator deliver a null vector.",
  [O],
  [("normal draws normalised to the sphere, redrawn while too short", "optics3d.py add_faerie_fire_rays"),
   ("probe type checked before the optic acts", "optics3d.py Ray.run")],
  [("numpy global random state", "source of the directions", "optics3d.py add_faerie_fire_rays")],
  ["the returned list", "Ray.point_history"])

p("C10", "Every trace history refines the optical model of its scene",
  "Along every multi-interaction trace, mirrors reflect specularly about the local surface normal (micromirror arrays about their facet normal), glass bodies, composed ones included, refract by Snell's law in the right direction between body and world and reflect totally beyond the critical angle, ideal lenses of positive focal length image by the thin-lens equation, collimate or focus, and gratings send a ray lying in their dispersion plane into its order by the grating equation, or stop it when that order does not propagate. Each path therefore equals the one an independent model of the scene predicts, whatever other rays, pauses, aborted traces, checkpoints or drawings happen in between.",
  ["histories", "schedules", "inputs", "configurations"],
  "Every history of a shared world of rays and optics: scenes of mirrors, lenses, balls, two-sphere lens bodies, gratings and detectors, traced in interleaved pieces with faults around them.",
  "No test lets a ray interact with an optic: reflection, refraction, imaging and diffraction are untested, let alone sequences of them in a shared world.",
  [O, G, S],
  [("reflection and grating diffraction", "optics3d.py Ray.reflect"),
   ("refraction, total internal reflection, ideal lenses", "optics3d.py Ray.refract"),
   ("choice of surface behaviour and of the media", "optics3d.py *.do_intersect"),
   ("intersection points and normals", "Shapes/shapes.py, general_optics.py operCsg*")],
  [("Ray.position, Ray.direction", "state the law acts on", "optics3d.py Ray")],
  ["Ray.point_history", "Ray.direction", "Detector.hit_data"])

p("C11", "Deleting files by extension removes those files only, and fails loudly",
  "Deleting by extension removes only files whose names end with the extension, directly in the given folder or, on request, in its subfolders; never any other file, a folder, or anything outside reached through a link. When it returns normally, every such file that was there from the start is gone. If a removal or a listing fails, the error reaches the caller, and running it again once the fault has passed finishes the job, also when other processes create or delete files meanwhile.",
  ["fault_sequences", "crash_points", "schedules", "inputs"],
  "Every folder tree, every listing order, every failing or interrupted file operation, every interleaving with another process that creates or removes files.",
  "No test touches the function; races with other processes and failing removals cannot be produced by ordinary tests.",
  [GEN],
  [("listing or walking the folder and removing by suffix", "general.py delete_files_with_extension")],
  [("the directory tree", "durable state", "file system")],
  ["the directory tree after the call", "the exception at the call"])

p("C12", "The grating sketch batch is complete or fails loudly",
  "Sketching the concave grating catalogue writes exactly one complete diagram file for each catalogue entry, named after the entry, and nothing else, however the catalogue's bytes arrive; the diagram shows the slit, the two edges of the ruling and the two image points where the entry's distances and angles put them. If reading the catalogue or writing any diagram fails, the batch stops with that error instead of finishing as if everything had been written, diagrams already written in that batch stay intact, and running it again once the fault has passed completes the set. Diagrams of entries do not depend on which other entries the catalogue holds.",
  ["fault_sequences", "crash_points", "inputs"],
  "Every catalogue, every chunking of the read, every read or write that fails (full disk, I/O error, short write) or is interrupted.",
  "The script is not covered by any test, and no test makes file input or output fail.",
  ["script_sketchconcavegratings.py", GEN],
  [("catalogue parsing line by line into a dictionary", "script_sketchconcavegratings.py"),
   ("one figure saved per entry", "script_sketchconcavegratings.py")],
  [("grating diagrams/*.pdf", "output files", "file system")],
  ["files in the diagram folder", "exit by exception"])

p("C13", "Composed bodies are met exactly on the boundary of their set, along every trace",
  "A body composed of spheres and cylinders by union, intersection and difference, in a tree of any shape and depth, is met by a ray exactly where the ray crosses the boundary of the composed set, and nowhere else: not on a wall that was carved away or lies buried in another part, and not beyond a boundary it should have met. This holds along every trace, whether the ray starts inside the material, in a hollow or outside, for every interaction after the first, after the body was copied or restored, and when several threads trace rays through the same body. There the body reflects or refracts about the normal of the part that bounds it.",
  ["programs", "inputs", "histories", "schedules"],
  "Every tree of primitives, every ray, every history of interactions with the body (reflections inside it, entering and leaving), every interleaving of traces through one body.",
  "No test builds a tree, and none traces a ray through a composed body.",
  [G, O, S],
  [("crossings of a tree combined between every two crossings of its parts", "general_optics.py tree_crossings, test_tree_intersect, operCsgIndex*"),
   ("tree built from nodes", "general_optics.py BinaryTree"),
   ("body acts at the crossing", "optics3d.py Compound.test_intersect, Compound.do_intersect"),
   ("crossings of the parts", "Shapes/shapes.py Sphere.test_intersect, InfiniteCylinder.test_intersect")],
  [("Ray.position, Ray.direction", "decide which crossing is ahead", "optics3d.py Ray")],
  ["Ray.point_history", "Ray.direction"])

p("C14", "The index of refraction at a point follows the body it lies in, at every moment",
  "The refractive index reported for a point is that of the first listed glass ball or composed body that contains the point, containment being given by the set algebra of the body's tree, and the world's index where no body contains it (points on a surface itself may count either way). The answer depends on the point and the listed bodies only: not on earlier queries, traces or aborted traces, not on copies and restores of the scene, and not on queries and traces running on other threads; and a query never modifies the point it is given.",
  ["programs", "inputs", "histories", "schedules"],
  "Every tree, every point, every listing order of overlapping bodies, every history of queries, traces, checkpoints and re-listings, every interleaving of queries.",
  "No test queries an index.", [O, G, S],
  [("first body wins", "optics3d.py get_index_at_point, Lens.get_index_at_point_if_inside, Compound.get_index_at_point_if_inside"),
   ("set algebra on leaf membership", "general_optics.py test_tree_point, operCsgIndex*"),
   ("membership of the parts", "Shapes/shapes.py Sphere.test_point, InfiniteCylinder.test_point")],
  [], ["the value returned"])

p("C22", "Library helpers depend on their arguments only, at every moment",
  "Every geometry, formatting, conversion, interpolation, tree-printing and shape-building helper gives, for the same arguments, the same answer at every moment: whatever was called before, with whatever similar arguments, after calls that were aborted, after the caller changed earlier arguments or earlier results in place, and while other threads call the same helpers. A result once returned never changes by itself, not even an interpolant that is evaluated later. Helpers modify neither their arguments nor numpy's error handling nor the random stream.",
  ["histories", "schedules", "fault_sequences", "crash_points"],
  "Every sequence of helper calls, in-place changes and aborts, every interleaving of calls on caller threads.",
  "Each test calls a helper a few times with constants, in one thread, and forgets the results.", [G, GEN, S],
  [("helpers compute from their arguments into new objects", "general_optics.py rotation_matrix*, image_rays, project_onto_plane, BinaryTree; general.py to_precision, log_interp1d, find_nearest, conversions; Shapes/shapes.py constructors")],
  [], ["the values returned, now and later", "the arguments after the call"])

# ---- listed, not decided by deterministic simulation ----
p("C15", "Vector and matrix helpers are exact rotations and projections",
  "The rotation helpers return proper rotations taking the one direction to the other or turning about the axis by the angle, the projection is orthogonal, and the angle is signed by the given normal, for all non-degenerate vectors.",
  ["inputs"], "All vectors and angles.",
  "The tests sample a handful of axis-aligned vectors.", [G],
  [("Euler-Rodrigues and cross-product forms", "general_optics.py rotation_matrix_axis_angle, rotation_matrix2, project_onto_plane, angle_between")])
p("C16", "Image ray fans cover the requested grid",
  "The generated image rays form the requested grid of origins times angles, with unit directions and a wavelength for each ray according to the pattern.",
  ["inputs"], "All sizes, resolutions and angles.",
  "No test generates image rays.", [G], [("nested grid loops", "general_optics.py image_rays")])
p("C17", "Gratings obey the conical grating equation off the dispersion plane",
  "A ray inclined to the dispersion plane keeps its component along the grooves and is diffracted by the conical grating equation; orders that do not propagate are not emitted.",
  ["inputs"], "All incidences, orders, wavelengths and groove densities.",
  "No test diffracts a ray.", [O], [("grating equation on projected angles", "optics3d.py Ray.reflect")])
p("C18", "Numbers are formatted to the requested precision",
  "Formatting a number with p digits yields a string that parses back to the number rounded to p significant digits, for every finite number.",
  ["inputs"], "All finite floats and precisions.", "No test formats a number.", [GEN],
  [("digit generation from the decimal exponent", "general.py to_precision")])
p("C19", "Wavelength, energy and colour conversions are consistent",
  "Wavelength and photon energy conversions are mutually inverse, and the colour of a wavelength is a valid, continuous RGB triple clamped to the visible range.",
  ["inputs"], "All positive wavelengths and energies.", "No test covers them.", [GEN],
  [("conversion formulas", "general.py wavelength_nm_to_energy_eV, energy_eV_to_wavelength_nm, wavelength_to_rgb")])
p("C20", "Numerical utilities approximate what they name",
  "The Fermi-Dirac integrals, smoothing filter, moving average, logarithmic interpolation and nearest-value search return the mathematical result they document within their documented accuracy.",
  ["inputs"], "All arguments in the documented domain.", "No test covers them.", [GEN],
  [("formulas", "general.py FD_int_num, FD_int_approx, savitzky_golay, log_interp1d, find_nearest, movingAverageFast")])
p("C21", "Shapes reject contradictory dimensions and are consistent when accepted",
  "A shape is only constructed from non-contradictory radius and diameter, or height and width, and from perpendicular normal and tangent, and then radius, diameter, corners and axes agree with each other.",
  ["inputs"], "All constructor arguments.", "Tests construct one sphere and one rectangle.", [S],
  [("argument checks", "Shapes/shapes.py check_R_and_D, check_h_and_w, Rectangle.__init__")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
