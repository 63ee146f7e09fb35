#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements are maintained here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                               mechanism=[dict(zip(("name", "where"), m)) for m in mech],
                               observe_at=list(observe), hook_needed=hook)))

M, N, H, MO, S, I, R, W = ["src/fibermat/%s.py" % x for x in
    ("mat", "net", "mesh", "model", "solver", "interpolation", "render", "widgets")]

p("C01", "A seed fully determines the fibre set, whatever runs around it",
  "Generating a fibre set twice with the same parameters and seed gives identical fibres, whatever other code (other generations, consumers or re-seedings of the host's random generators, failed or interrupted generations) ran before or ran interleaved with it. A generation that is interrupted or fails leaves nothing behind that changes a later one. Different seeds give different sets.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of concurrent generations and host random draws, every history of earlier calls, every interrupt point",
  "test_mat builds one default set in a fresh process with nothing interleaved; no test varies schedule, history or faults",
  [M], [("seeded random stream", "Mat.init in mat.py")],
  [("random stream", "source of positions and angles", "Mat.init")], ["columns and attributes of the returned set"])

p("C02", "The host program's process-wide state is left as it was found",
  "Whatever library operation a program calls, and whether it returns, fails or is interrupted, the program's process-wide state is as it was before: random generator state and the draws a host thread sees, warning filters, floating-point error handling, pandas/NumPy options, environment, working directory, standard streams and running threads. This also holds for operations that overlap in several threads.",
  ["schedules", "fault_sequences", "histories"],
  "every operation, every interrupt or failure point inside it, every interleaving with other operations and host code",
  "no test looks at process-wide state at all, let alone after failures or under overlap",
  [M, N, H, MO, S, I, R, W],
  [("local random stream", "Mat.init"), ("thread-local errstate around the interpolation of results", "solve in solver.py"), ("progress bars", "solver.py, render.py")],
  [("numpy random state, warnings.filters, np.geterr, pandas options", "host-owned globals", "process")],
  ["globals before and after each call", "values drawn by a host thread"])

p("C03", "Operations do not alter their inputs",
  "No operation changes the objects it is given (fibre sets, networks, meshes, arrays, option dictionaries), neither when it returns nor when it fails or is interrupted half-way. The one documented exception is stacking, which replaces the heights of the fibres: all of them at once and nothing else. Changing a computed network, mesh, matrix or history afterwards does not change the objects it was computed from.",
  ["inputs", "fault_sequences", "histories"],
  "every operation on every input, every failure or interrupt point inside it, every sequence of operations on shared objects",
  "tests never compare inputs before and after, and never interrupt a call",
  [N, H, MO, S, R],
  [("copies of the periodic images", "Net.init"), ("copy of the table attributes", "Net.init, Mesh.init"), ("local thickness array", "constraint in model.py"), ("single assignment of the heights", "Stack.init")],
  [("mat.z", "fibre heights, updated by stacking", "Stack.init")],
  ["bytes, types, labels and attributes of every argument"])

p("C04", "An interrupted or failed operation can be retried with the same result",
  "When an operation is interrupted or hits an error (Ctrl-C, out of memory, failing numerical routine) at any point, the error reaches the caller, and repeating the operation on the same objects, as often as needed, gives exactly the result of an undisturbed session. No later operation of the session is affected either.",
  ["crash_points", "fault_sequences", "histories"],
  "every point of every operation of the generate/connect/stack/mesh/assemble/solve/export chain, any number of successive interruptions",
  "no test injects a failure or repeats an operation",
  [M, N, H, MO, S, I, R],
  [("results are built in local objects and returned last", "all constructors and solve"), ("single assignment of the heights", "Stack.init")],
  [], ["result of the retried operation and of the rest of the session", "exception seen by the caller"])

p("C05", "Concurrent callers get exactly the results of serial execution",
  "When several threads use the library at the same time, on their own objects or reading shared ones, each of them gets exactly the result (or error) it would get alone, in every interleaving, and all of them finish. Stacking writes the heights of its own fibre set and of no other.",
  ["schedules"],
  "every interleaving (down to single bytecode instructions of the library) of 2 to 4 clients running generation, network, stacking, mesh, assembly, solve, interpolation and export",
  "tests are single-threaded; a real race needs an interleaving no unit test controls",
  [M, N, H, MO, S, I, R],
  [("no module-level mutable state", "all modules"), ("local random stream", "Mat.init")],
  [], ["results per client compared with a run in a process of its own"])

p("C06", "A faulty linear solver can stop a packing but never corrupt its history",
  "If the linear solver plugged into the packing simulation returns an inaccurate, stale, NaN or infinite answer or fails at some step, the simulation stops there: it either raises that error or returns exactly the states computed before the fault. No state whose residual exceeds the error tolerance is ever recorded, and the reported numerical error of each recorded step is its true residual.",
  ["fault_sequences", "inputs"],
  "every step at which the fault strikes, every kind of wrong answer or exception, every packing problem",
  "no test runs the packing solver at all",
  [S], [("residual test after each linear solve", "solve in solver.py"), ("state appended only after the test", "solve in solver.py")],
  [("history lists", "states recorded so far", "solve in solver.py")], ["returned history compared with the healthy run's prefix", "answers seen at the solver seam"], None)

p("C07", "Cutting a packing short yields an exact prefix, and every packing terminates",
  "A packing limited by an iteration budget or by a target stretch returns exactly the first states of the same packing run for longer: it stops at the budget, at the first state that reaches the target, or when the stack is jammed, and always returns normally with a usable history of at least the initial state. It never makes more linear solves than its budget, and display and resampling options do not change the states.",
  ["inputs", "fault_sequences", "histories"],
  "every budget, target, jam step (including a linear system that becomes singular) and option combination of a packing problem",
  "no test runs the packing solver, so no cut-off is ever exercised",
  [S, I], [("loop condition on iterations and stretch", "solve in solver.py"), ("break on jam", "solve in solver.py"), ("interpolation of the recorded states", "Interpolate")],
  [], ["number and content of the recorded states", "calls at the linear-solver seam", "library steps executed"])

p("C08", "Recorded packing states obey the contact laws for any ordering and backend",
  "Every state a packing records satisfies the physics, whatever ordering of unknowns and whichever linear backend (with accumulated errors below the tolerances) is used: no fibre penetrates another, the floor or the lid, every fibre is in vertical force balance, contact forces act only across closed contacts, the lid only moves down, and the reported stretch is the initial height divided by the current one. The same holds when a session deforms the mesh and packs it again.",
  ["schedules", "fault_sequences", "inputs"],
  "every ordering of the unknowns, every backend whose error stays below the tolerance, every packing problem and stage of a session",
  "no test runs the packing solver, with any ordering or backend",
  [S, MO], [("step length to the next contact", "solve in solver.py"), ("constraint rows of floor, contacts and lid", "constraint in model.py"), ("active set", "solve in solver.py")],
  [("u, f, Z, rlambda", "displacements, forces, lid height, stretch", "solve in solver.py")], ["every recorded state against the geometry of the inputs"])

p("C09", "Stacking gives the lowest non-penetrating heights, or fails and changes nothing",
  "Stacking puts every fibre at the lowest height at which it rests on the floor and on the fibres it crosses below it, and the returned network carries those heights and the connections within the distance threshold plus all fibre ends. When the optimiser fails, reports no or a non-optimal solution, or is interrupted, stacking raises and the heights are unchanged; a later attempt succeeds.",
  ["fault_sequences", "inputs", "histories"],
  "every fibre set and threshold, every optimiser outcome (infeasible, iteration limit, numerical trouble, exception, interrupt), every history of attempts",
  "test_stack checks one finite and one periodic set with a working optimiser, and only that crossing fibres do not overlap",
  [N], [("linear program", "Stack.solve, Stack.constraint"), ("success test before the heights are written", "Stack.init"), ("threshold filter", "Stack.init")],
  [("mat.z", "fibre heights", "Stack.init")], ["heights against a longest-path model", "heights after a failed attempt"])

p("C10", "A session can crash at any point and resume from its last saved tables",
  "If the program saves the tables of each stage and crashes at any point (also in the middle of a save), a new process that reloads the last complete save and continues produces exactly the final results of an uninterrupted session. This holds for binary saves and for text tables with their attributes, and for any combination of stages reloaded or recomputed.",
  ["crash_points", "histories"],
  "every crash point (inside an operation or a write), every save format, every subset of stages that survived",
  "no test saves, reloads or resumes anything",
  [M, N, H, MO, S], [("reconstruction from a table", "Mat, Net, Stack, Mesh constructors"), ("all state in columns and attributes", "all table classes")],
  [("table attributes", "n, size, periodic", "attrs")], ["final results of the resumed session"])

p("C11", "Damaged tables are refused with the documented error; sound ones are accepted",
  "A stored fibre set, network or mesh that was damaged so that it violates a documented condition (lost, repeated or reordered rows, missing columns or attributes, values out of range, broken references) is refused on loading and by every operation that takes it, with the documented error class and without altering it. Tables that satisfy the documented conditions are accepted unchanged; a table whose owner set the documented skip_check flag is accepted with a warning.",
  ["fault_sequences", "inputs"],
  "every table and every sequence of storage faults on its rows, columns, cells and attributes",
  "tests check valid tables, and a few hand-made violations at most",
  [M, N, H], [("consistency checks", "Mat.check, Net.check, Stack.check, Mesh.check"), ("check on construction and on use", "constructors, init methods, model.py, render.py")],
  [], ["error class raised by construction, check and use", "documented conditions evaluated independently"])

p("C12", "Progress display and clocks never influence results",
  "The results of packing and export do not depend on the progress display: with the display on or off, with a clock that jumps, stalls or runs backwards, or with a slow output stream, the same results are returned. If the output stream breaks, the operation either gives the same result or raises that stream's error, leaves its inputs untouched and works when repeated.",
  ["fault_sequences", "schedules", "configurations"],
  "every clock trajectory, every point at which the output stream fails, display on or off",
  "no test enables the display, and the clock and stream of a test run are healthy",
  [S, R], [("progress bars", "solve in solver.py, vtk_mat in render.py"), ("loop counter independent of the bar", "solve in solver.py")],
  [], ["results under simulated clock and stream"])

p("C13", "The settings panel always reports what the user last entered",
  "Whatever sequence of front-end messages (edits, switches, duplicates, late or reordered deliveries) and program assignments reaches the settings panel, reading a parameter gives the last value accepted for it: infinity or 'none' when its switch is off, the angle scaled to radians, an integer budget. A parameter's input field is disabled exactly when its switch is off, other parameters are never affected, and values assigned by the program read back the same.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence and delivery order of front-end messages and assignments over all parameters",
  "no test covers the widgets",
  [W], [("switch observers", "Settings.__init__"), ("value mapping", "Settings.__getitem__, Settings.__setitem__, Settings.__call__")],
  [("switch and field of each parameter", "panel state", "Settings")], ["values read from the panel after each delivery", "disabled flags"])

p("C14", "The notebook buttons report what really happened",
  "The install button shows success only after an installation command that succeeded, shows failure after one that failed, shows neither while it runs, runs exactly one command naming every requested package and option per click, displays for each installed package the version of its own module, and can be clicked again after a failure. The plotting button always shows the backend it last asked for and alternates with each click, for every sequence of clicks and command failures. Several buttons do not affect each other.",
  ["fault_sequences", "histories"],
  "every sequence of clicks, command exit codes, failing version queries and display errors",
  "no test covers the widgets, and a real installation cannot run in a test",
  ["widgets.py"], [("exit-code test", "PipButton"), ("toggle", "MatplotlibButton")],
  [("button label and style", "state shown to the user", "widgets.py")], ["label, style and commands issued after each click"])

p("C15", "Exports visit every fibre once, keep inputs intact and survive failing callbacks",
  "Exporting a fibre set calls the user's callback exactly once per fibre, in order and with that fibre's own geometry and label, and the exported grid carries for every fibre its label, dimensions, orientation and material, each point at its place and, in mesh exports, referred to the beam of its own fibre that carries it, moved with that beam and bearing its fields; periodic exports carry every image of a fibre that lies in the drawing box and no other. If the callback fails or the export is interrupted at any fibre, the error reaches the caller, no further callback is made, inputs are unchanged and a repeated export gives the same grid as an undisturbed one.",
  ["fault_sequences", "inputs", "histories"],
  "every fibre set, every fibre at which the callback fails or an interrupt strikes, every sequence of exports",
  "the export functions have no test at all",
  [R], [("loop over fibres with callback", "vtk_mat in render.py"), ("field interpolation as a callback", "vtk_mesh in render.py")],
  [], ["callback history", "points and fields of the grid"])

p("C16", "Network nodes are the nearest points of crossing fibre segments",
  "For every pair of fibres the network contains a connection exactly when the nearest points of the two lines lie inside both segments (over the periodic images when periodic), at the right abscissae and positions.",
  ["inputs"], "every fibre set", "tests check a few sampled sets",
  [N], [("normal equations", "Net.init")], [], ["network table"])

p("C17", "Stiffness follows the Timoshenko beam law between its limit cases",
  "The assembled stiffness of every beam element is the documented Timoshenko matrix for its rescaled length, symmetric positive semi-definite, and tends to the rigid and Euler limits.",
  ["inputs"], "every mesh and material", "doctests check three one-fibre examples",
  [MO], [("assembly", "stiffness in model.py")], [], ["matrix returned"])

p("C18", "The mesh preserves the network's topology",
  "Every connection of a network becomes exactly one reciprocal pair of nodes, nodes are ordered along their fibre, and beams link consecutive nodes of the same fibre only.",
  ["inputs"], "every network", "tests check a few sampled networks",
  [H], [("sorting and relabelling", "Mesh.init")], [], ["mesh table"])

p("C19", "Interpolated results reproduce the samples they are built from",
  "Interpolated results return the recorded samples at the sample times, the requested number of points when resampled, and values between neighbouring samples elsewhere, in the type of the data.",
  ["inputs"], "every data array, size and kind", "no test, one plotted example",
  [I], [("interp1d", "Interpolate")], [], ["values returned"])

p("C20", "A session driven from the settings panel computes what the panel shows",
  "An operation called with the settings panel (Mat(**panel), Net(mat, **panel), Stack, Mesh, stiffness, constraint, solve, vtk_fiber) does exactly what it does when it is given, as plain values, the parameters it documents as the panel shows them at that moment; the panel's other parameters change nothing. Messages that arrive late, twice or while an operation runs take effect from the next operation on. Operations that return, fail or are interrupted leave the panel as it is.",
  ["histories", "schedules", "fault_sequences"],
  "every history of panel messages, program assignments and operations, every delivery order, every point inside an operation at which a message or an interrupt arrives",
  "no test uses the widgets, and every test passes one or two parameters by name, never the whole panel",
  [W, M, N, H, MO, S, R],
  [("keyword unpacking of the panel", "Settings.__getitem__ in widgets.py"), ("further keywords are ignored or passed on", "constructors, init methods, stiffness, constraint, solve, vtk_fiber")],
  [("switch and field of each parameter", "panel state", "Settings")], ["results of the panel's session and of one written with plain values", "values read from the panel"])

p("C21", "Dropped results are released; a long session does not accumulate",
  "When a program drops the results of its operations, the objects it was given and had passed in are released (notebook widgets, which ipywidgets itself registers, aside): the library keeps no reference to them, whether the operation returned, failed or was interrupted. Repeating operations any number of times, with the same or with other parameters, on new objects or on the same ones, does not make the library's own state, the number of live objects, open files, threads or figures grow, and leaves no files behind.",
  ["histories", "fault_sequences"],
  "every session repeated any number of times with varying parameters, every failure or interrupt point inside it",
  "a test drops its process after a few calls; what is retained per call or per failure shows only over many of them",
  [M, N, H, MO, S, I, R],
  [("no module-level state", "all modules"), ("results are built in local objects", "all constructors and solve"), ("progress bars closed by context", "solver.py, render.py")],
  [], ["weak references to results and arguments", "population of objects, descriptors, threads, figures and files after each round"])

p("C22", "Work handed to worker processes gives the results of one process",
  "A job split over long-lived worker processes, as multiprocessing, joblib or dask do it (fibre sets, networks, stackings, meshes, system matrices, packing results with their interpolated histories and exported grids travel as pickles, possibly into read-only memory), gives for every task the result, or the error, that the whole job gives in one process. This holds whichever worker serves a task, whatever that worker did before, whether it was forked or started afresh (any hash seed), however often a task is executed because messages were lost, late, duplicated or reordered or because workers crashed, stalled or ran out of memory, and every task is done once such faults stop.",
  ["schedules", "fault_sequences", "histories"],
  "every assignment of tasks to workers, every order, loss and duplication of messages, every crash point of a worker, every history of a worker",
  "tests run every operation once, in one process, on the very objects the previous operation returned",
  [M, N, H, MO, S, I, R],
  [("no state between calls and none outside the objects", "all modules"), ("tables carry their attributes", "attrs of Mat, Net, Stack, Mesh"), ("results are self-contained", "Interpolate in interpolation.py, solve in solver.py")],
  [("pickled tables and results", "messages between processes", "coordinator and workers")], ["result of each task at the coordinator", "results of repeated executions of one task", "tasks done"])

p("C23", "Results do not depend on how the host program is configured",
  "The same sequence of library calls gives the same results (and the same errors) whatever process-wide settings the host program has chosen and whenever it changes them, between calls or in the middle of one from other code: NumPy error handling (trapping included) and print options, pandas options (copy-on-write, chained-assignment mode, string inference, accelerators), warning filters (with future, deprecation or runtime warnings turned into errors), state of the random generators, standard streams, locale, environment, working directory, garbage collection, tracing or profiling, recursion limit, scikit-learn, SciPy and Matplotlib settings; likewise in the main thread, a worker thread or an event loop, and in interpreters started with -O, -OO, -bb, -X dev, any hash seed or warnings as errors (-O and -OO remove the validity checks; a call that is asked to display needs a stream).",
  ["schedules", "inputs", "histories"],
  "every combination of settings, every moment (step of the library) at which other host code changes them, every way the interpreter was started",
  "tests run under one configuration, the default one, which never changes while they run",
  [M, N, H, MO, S, I, R],
  [("no dependence on ambient settings", "all modules"), ("explicit warning handling on the solve path", "solve in solver.py"), ("explicit label-based assignment", "Mesh.init, model.py")],
  [("process-wide settings", "owned by the host program", "process")], ["result or error of every call, compared with the plain configuration"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
