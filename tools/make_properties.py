"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

SIM = "nannos/simulation.py"; LAY = "nannos/layers.py"; INI = "nannos/__init__.py"

prop("C01", "Answers do not depend on which queries came before",
 "Every answer a simulation gives (efficiencies in any form, scattering matrices of the full or a partial stack, fields in Fourier or real space, fluxes, stresses, permittivity maps, tangent and Jones fields of the layers in any type asked for, areas, grids, shapes and harmonics of the lattice) is the answer a brand-new simulation of the same structure gives when it is asked only that question. It does not matter which other questions were asked before, how often, in what order, whether layers are named by index (positive or negative), by name or by layer object, or whether solving was triggered explicitly.",
 ["histories", "inputs"], "all sequences of queries on all stacks (1D, 2D, oblique lattices; uniform, patterned, copied layers; all formulations; short and long stacks)",
 "The tests ask one or two questions per simulation in one fixed order; the lazily filled caches (solved modes, total and partial scattering matrices) can only give wrong answers after particular query orders on particular stack lengths, which no finite list of tests covers.",
 [SIM, LAY],
 [("lazy solve flag and cached total scattering matrix", SIM + " Simulation.solve, Simulation.get_S_matrix, Simulation._solve_ext"),
  ("cache of partial scattering matrices by first and last interface", SIM + " Simulation.get_S_matrix"),
  ("layer lookup by index, name or object", LAY + " _get_layer")],
 state=[("is_solved", "modes of all layers are available", SIM), ("S / _intermediate_S", "cached scattering matrices", SIM)],
 observe=["return values of every public query method of Simulation"])

prop("C02", "Editing layers and resetting equals rebuilding from scratch",
 "After layer properties of a simulation are edited (thickness, permittivity, tangent-field choice, formulation) and the simulation is reset as documented (reset of the scattering matrix for thickness changes, full reset otherwise), every later answer equals that of a simulation newly built with the edited values. This holds after any number of edits, resets and queries in between, including edits that restore an earlier value and resets that were not necessary.",
 ["histories", "inputs"], "all interleavings of edits, resets of every kind and queries, on all stacks",
 "The thickness-sweep idiom is tested once on one stack with one query; stale caches appear only for particular edit/query/reset orders, positions in the stack and query kinds.",
 [SIM, LAY, "nannos/utils/helpers.py"],
 [("reset of cached matrices and of the solved flag", SIM + " Simulation.reset"), ("attribute removal helper", "nannos/utils/helpers.py _reseter"),
  ("thickness read at query time, modes read from the last solve", SIM + " Simulation._get_solved_layer")],
 observe=["all Simulation queries after edit + reset"])

prop("C03", "Simulations sharing layers, lattices or sources do not disturb each other",
 "Any number of simulations may be built from the same layer, lattice and excitation objects, with different excitations, formulations, numbers of harmonics, stacking orders or neighbours. However their construction, solving, resetting and queries are interleaved, each simulation gives the answers it would give had it been built alone from its own private objects.",
 ["histories", "inputs", "schedules"], "all interleavings of build, solve, reset and query operations over sets of simulations sharing any subset of objects",
 "Tests build the objects afresh for every simulation; disturbance needs two simulations alive at once and a particular order of their solve and query steps.",
 [SIM, LAY], [("each simulation solves private versions of the shared layers", SIM + " Simulation.solve, Simulation._get_private_layer"),
  ("modes published on layer objects for inspection only", SIM + " Simulation.solve")],
 state=[("_layers_solved", "modes private to the simulation", SIM)], observe=["queries of every live simulation"])

prop("C04", "Copied layers behave exactly like independently built layers",
 "A stack containing copies of a layer (copies of copies, copies placed before or without their original, copies renamed or given another thickness, permittivity or tangent-field type before or after copying, originals edited after copying) gives the same answers as the stack in which each copy is replaced by a separately built layer with the same current values. Copying never changes the original.",
 ["histories", "inputs"], "all copy chains, placements in stacks, and edits made to copies and originals before or after copying",
 "One test copies one layer next to its original; the shortcut that reuses the original's modes is only wrong for particular placements and edit histories.",
 [LAY, SIM], [("copy() keeps a link to the original", LAY + " Layer.copy"), ("modes are reused only for copies with identical materials", LAY + " Layer.has_same_modes; " + SIM + " Simulation._get_private_layer, Simulation.build_matrix, Layer.solve_eigenproblem")],
 observe=["queries of simulations containing copies", "attributes of the original layer"])

prop("C05", "Concurrent callers get the same answers as sequential callers",
 "When several threads query one simulation, or different simulations that share layers, at the same time, with no edits going on, every call returns the answer it would return if the calls were made one after another, and no call fails, blocks forever or leaves behind a simulation that answers differently afterwards.",
 ["schedules", "histories"], "all interleavings of the threads at source-line granularity, including first queries that race to solve",
 "No test uses threads on a shared simulation, and real thread tests would sample a handful of uncontrolled interleavings.",
 [SIM, LAY], [("solved modes are stored before the solved flag is set", SIM + " Simulation.solve"), ("partial results are built in local variables and stored complete", SIM + " Simulation.get_S_matrix")],
 observe=["return values of concurrent calls, later sequential queries"])

prop("C06", "A query that fails or is interrupted does not damage the simulation",
 "If a query is stopped at any point (Ctrl-C at any line, a memory or linear-algebra failure in any numerical step), the exception reaches the caller, and repeating the query or asking any other one, on this or another simulation sharing its layers, without any reset, gives the right answer.",
 ["crash_points", "fault_sequences", "histories"], "all interruption points inside all operations, repeated faults, any continuation",
 "Tests never interrupt a computation; half-finished solves or half-filled caches only exist after a fault at a particular line.",
 [SIM, LAY, "nannos/utils/helpers.py"], [("solved flag set last", SIM + " Simulation.solve"), ("cache entries stored only when complete", SIM + " Simulation.get_S_matrix")],
 observe=["exceptions of interrupted calls", "answers of later queries"])

prop("C07", "All answers given in a session satisfy one consistent physical solution",
 "At every point of any session of edits, resets and queries, the answers describe one electromagnetic solution of the current structure: tangential fields are continuous at interfaces, per-order efficiencies add up to the totals, squared complex amplitudes equal efficiencies where documented, real-space fields are the Fourier sums of the Fourier fields, partial scattering matrices compose to the total one, and lossless stacks conserve energy. For structures of uniform, patterned isotropic and patterned in-plane anisotropic layers and every formulation, scattering matrices, efficiencies and fields equal those of an independent rigorous coupled-wave solution with the same harmonics (and, for the formulations based on tangent fields, the tangent field the layer reports).",
 ["histories", "inputs"], "all sessions over generated structures, sources and harmonic sets",
 "Tests compare a few structures with stored numbers; agreement between all query kinds and with an independent model for arbitrary stacks, layers, angles and query positions is not sampled.",
 [SIM, LAY, "nannos/excitation.py", "nannos/formulations/fft.py"], [("layer modes", LAY + " Layer.solve_uniform, Layer.solve_eigenproblem"), ("scattering matrix recursion and amplitudes", SIM + " Simulation.get_S_matrix, Simulation._solve_int, Simulation._solve_ext"), ("efficiencies from fluxes and from fields", SIM + " Simulation.diffraction_efficiencies, Simulation._get_complex_orders")],
 observe=["all Simulation queries"])

prop("C08", "A parallel loop returns what the sequential loop returns",
 "A function decorated as a parallel loop returns, for every number of jobs and every worker schedule, the list of the function applied to each element of its first argument with the remaining positional and keyword arguments, one result per element, in input order, each element evaluated exactly once. This holds for empty, single, long, lazily generated and duplicate inputs, for nested and concurrent loops, and for repeated calls of the same decorated function.",
 ["schedules", "inputs", "histories"], "all completion orders and delays of workers, job counts, inputs and call histories",
 "The tests run short loops on real workers whose completion order is nearly always the submission order.",
 ["nannos/parallel.py"], [("dispatch of one task per element through joblib", "nannos/parallel.py parloop")],
 observe=["returned list", "evaluations seen by the tasks"])

prop("C09", "Failures in parallel loop workers reach the caller and do not linger",
 "If an evaluation raises, a worker dies or the caller is interrupted, the parallel loop raises that error (for a task error: the task's own exception) instead of returning a partial, shifted or padded list, does so within a bounded number of steps, and later calls of the same decorated function work normally.",
 ["fault_sequences", "schedules", "crash_points"], "all sets of failing elements, worker deaths at any task, caller interruption, all worker schedules and later calls",
 "No test makes a worker fail.",
 ["nannos/parallel.py"], [("exceptions re-raised by joblib in the caller", "nannos/parallel.py parloop"), ("a new worker pool per call", "nannos/parallel.py parloop")],
 observe=["exception or list returned", "later calls"])

prop("C10", "The adaptive sampler returns exact samples, serial or parallel",
 "For a starting grid of distinct points, given in any order, the adaptive sampler returns strictly increasing points that contain the whole starting grid, paired with exactly the values the sampled function returned at those points (for scalar functions and for functions returning several values), having evaluated the function exactly once per returned point. Running it with several jobs under any worker schedule gives the identical result to running it serially, and a failing evaluation surfaces as that failure.",
 ["schedules", "inputs", "fault_sequences"], "all sampled functions, grids, tuning parameters, job counts, worker schedules and failing evaluations",
 "One test samples one smooth function serially and in parallel and checks nothing about pairing under reordered completion.",
 ["nannos/sample.py", "nannos/parallel.py"], [("merging of new points and values by sorted index", "nannos/sample.py adaptive_sampler"), ("evaluation of new points in parallel", "nannos/sample.py adaptive_sampler, nannos/parallel.py parloop")],
 observe=["returned points and values", "calls of the sampled function"])

prop("C11", "The adaptive sampler refines where its parameters say, and stops",
 "Every added point is the midpoint of an existing interval, intervals shorter than the minimum relative spacing are never subdivided, and when the sampler returns no remaining point still asks for refinement: each interior point bends less than the maximum angle between segments of comparable length, or both its intervals are below the minimum spacing, or both its value differences are below the given fraction of the range. It always stops, within the number of points the minimum spacing allows.",
 ["inputs", "histories"], "all functions (including steps, plateaus, constants, spikes), grids and tuning parameters; progress bounded by the minimum spacing",
 "Refinement histories depend on the sampled values; the single tested function visits one of them.",
 ["nannos/sample.py"], [("bend, spacing and difference criteria and midpoint insertion", "nannos/sample.py adaptive_sampler")],
 observe=["sequence of evaluated points", "returned points"])

prop("C12", "Backend, device and precision switches always take effect everywhere",
 "After any sequence of backend, GPU and precision switches, computations and environment settings, the library reports the backend and types last requested (falling back to the CPU when no GPU exists), every part of it computes with that backend's arrays, in number types and with results equal to those of a process that selected this backend and precision from the start. Switching to the backend already in use changes nothing, and an explicit choice always wins over the environment variable.",
 ["histories", "configurations"], "all sequences of switches interleaved with simulations, under all environment settings",
 "Tests switch backends in one fixed order and hardly ever check results afterwards; stale modules appear only after particular sequences.",
 [INI], [("backend flags and module reload", INI + " set_backend, _reload_package"), ("device selection and fallback", INI + " use_gpu, get_device"), ("precision flag", INI + " use_32_bit, get_types")],
 state=[("backend flags", "module globals that survive reloads", INI)], observe=["get_backend, get_types, dtype and type of results, results"])

prop("C13", "A failed or interrupted backend switch is recoverable",
 "If a backend switch fails (unknown name, required package broken or missing) or it or the import of the library is interrupted at any point, the error reaches the caller (an optional package that is missing or cannot be imported instead falls back to numpy with a warning), and a later switch to any available backend succeeds and leaves a library fully working on that backend.",
 ["crash_points", "fault_sequences", "histories"], "all interruption points of the reload, unknown names, missing packages, any sequence of retries",
 "Tests only check that an unknown name raises; a half-reloaded package exists only after a failure at a particular point.",
 [INI], [("reload marker kept until the reload is complete", INI + " _reload_package, set_backend"), ("fallback to numpy", INI)],
 observe=["state reported and results after retry"])

prop("C14", "The topology optimizer returns a point it evaluated, within bounds, on schedule",
 "The optimizer returns a pair (design, value) where the value is what the objective gave for exactly that design at the last projection level, the design lies within [0, 1], every projection level in the threshold range is visited once in increasing order with the level passed as first extra argument and the others unchanged, each level starting from the previous level's result (and the last one ending no higher than it started); gradients are asked for the same level and arguments. The callback runs exactly once per objective evaluation with the evaluated design, value and arguments, and when a stop value is reached the returned value is the one below it.",
 ["inputs", "histories"], "all objectives, starting designs, thresholds, iteration limits, stop values, options and both optimizers, repeated runs included",
 "Tests run a few iterations of one objective and check hardly any of the returned data.",
 ["nannos/optimize.py"], [("continuation loop over projection levels", "nannos/optimize.py TopologyOptimizer.minimize"), ("stop value wrapper", "nannos/optimize.py StopFun")],
 observe=["objective and callback call records", "returned design and value"])

prop("C15", "Optimizer failures surface and leave the optimizer usable",
 "If the objective, its gradient or the callback raises or is interrupted at any evaluation, that exception reaches the caller of the optimizer and is not replaced by a result; running the optimizer again afterwards gives the result of a fresh optimizer on the same problem. A missing optional optimizer package falls back to the default one with the same guarantees.",
 ["fault_sequences", "crash_points", "histories"], "failures at every evaluation index and kind, both optimizers, any number of retries",
 "No test makes an evaluation fail.",
 ["nannos/optimize.py"], [("only the internal stop signal is caught", "nannos/optimize.py TopologyOptimizer.minimize"), ("fallback when nlopt is missing", "nannos/optimize.py TopologyOptimizer.__init__")],
 observe=["exception or pair returned", "second run"])

prop("C16", "The clock never influences results, and timings are what the clock says",
 "Jumps, steps backwards, freezes or arbitrary speed of the system clock during a session never change an answer, raise an error or change the order of work. The public timers report exactly the difference between the clock readings at start and stop, nested and overlapping use included.",
 ["fault_sequences", "histories"], "all clock behaviours (monotonic, frozen, jumping forwards and backwards) over all sessions",
 "Tests run on a well-behaved clock.",
 ["nannos/utils/time.py", SIM], [("tic and toc around computations, used for messages only", "nannos/utils/time.py; " + SIM)],
 observe=["answers under a simulated clock", "toc values and printed times"])

prop("C17", "Logging changes no result, and the chosen verbosity stays in force",
 "Whatever log level is set, and even when writing log messages fails, every answer is the same as with logging silenced. The level last set stays in force through any sequence of computations, level changes and backend switches, messages below it are not emitted, and each message at or above it is emitted exactly once.",
 ["histories", "fault_sequences", "configurations"], "all level changes, stream failures and backend switches interleaved with computations",
 "One test sets each level once and looks at nothing.",
 ["nannos/log.py", SIM, INI], [("single handler replaced on each level change", "nannos/log.py set_log_level"), ("level kept across reloads", "nannos/log.py")],
 observe=["stderr lines", "answers"])

prop("C18", "Saved and restored or cloned sessions continue with the same answers",
 "A simulation, or a set of simulations sharing layers, saved (pickled) or deep-copied at any point of a session and restored, in the same process, in a worker process or in a new process with another hash seed, gives the same answers as the original would, and the original is not affected. Later edits and resets of the restored copy behave as in the original and never leak between the two.",
 ["crash_points", "histories"], "all save points in all sessions, restarts included",
 "No test pickles or clones a simulation; which state is captured depends on the point of the session.",
 [SIM, LAY, "nannos/parallel.py"], [("all state lives in plain instance attributes", SIM + "; " + LAY)],
 observe=["answers of restored simulations and of originals"])

prop("C19", "The library never modifies what the caller passed in or holds",
 "No operation (building lattices, sources, layers, simulations; solving, querying, plotting-free sessions, sampling, optimizing, parallel loops), successful or failing, changes the contents of an array, list, dictionary or object the caller passed in, apart from the objects' documented own state; and answers handed out earlier keep their values whatever happens to the simulation later.",
 ["histories", "fault_sequences", "inputs"], "all sessions, including failed and repeated operations",
 "Tests do not look at their inputs again after the calls.",
 [SIM, LAY, "nannos/lattice.py", "nannos/sample.py", "nannos/optimize.py", "nannos/parallel.py"], [("inputs are copied or only read", "constructors and query methods"), ("out-of-place updates", "nannos/utils/helpers.py set_index and callers")],
 observe=["caller-held inputs and earlier answers after each step"])

prop("C20", "One session gives the same answers on every backend",
 "The same session (structure, edits, resets, queries, sampling, filters and projections) gives the same answers, within rounding, on every available backend, and gradients of an answer with respect to a design agree between the backends that provide them.",
 ["configurations", "histories", "inputs"], "all sessions on all pairs of backends",
 "Tests run on each backend separately against loose expectations; they do not compare backends on the same session.",
 [INI, SIM, LAY, "nannos/lattice.py", "nannos/formulations/fft.py", "nannos/utils/helpers.py"], [("backend-neutral numerics", "all modules using the selected array library"), ("backend-specific branches", "nannos/formulations/fft.py, nannos/utils/helpers.py, nannos/lattice.py")],
 observe=["answers per backend process"])

prop("C21", "The library imports and works whatever optional parts are missing",
 "Whatever combination of optional packages (torch, jax, nlopt) and package metadata is missing and whatever the environment variables selecting backend and GPU contain (valid, unavailable or nonsense names), the library imports, selects the requested backend if it is available and numpy otherwise, lists exactly the available backends, and computes correct answers.",
 ["configurations", "fault_sequences"], "all combinations of missing packages, metadata faults and environment settings at start-up",
 "Tests run with everything installed and environment variables set to valid names.",
 [INI, "nannos/__about__.py", "nannos/optimize.py"], [("optional imports guarded", INI + " has_torch, has_jax, _has_cuda"), ("metadata lookup guarded", "nannos/__about__.py get_meta"), ("environment selection", INI)],
 observe=["import outcome, get_backend, available_backends, results"])

prop("C22", "Invalid requests are rejected at any time and leave no trace",
 "At any point of a session, whatever was built, solved, cached, edited or reset before, an invalid request is rejected with an error every time it is made (unknown formulation, truncation, tangent-field type, field, component, order, layer name or kind of layer identifier, a layer object foreign to the stack, an index out of range, negative thickness, non-integer number of harmonics, duplicate layer names, layers of different lattices, insufficient sampling, magnetic or anisotropic uniform layers, two-dimensional shapes on one-dimensional lattices), and every answer given afterwards is what it would have been had the request never been made.",
 ["histories", "inputs", "fault_sequences"], "all invalid requests at all points of all sessions, once or repeatedly",
 "Tests try a few invalid constructor arguments on fresh objects; none asks whether a refused request left caches, flags or shared layers altered.",
 [SIM, LAY, "nannos/lattice.py", "nannos/utils/helpers.py"], [("argument checks before any state changes", SIM + " Simulation.__init__, Simulation.get_field_grid, Simulation.get_layer"), ("layer lookup", LAY + " _get_layer"), ("solved flag set only after all layers are solved", SIM + " Simulation.solve")],
 observe=["exception raised by each invalid request", "later answers of all simulations"])

prop("C23", "Gradients belong to the answers, and differentiating leaves no trace",
 "On the differentiable backends (autograd, torch), the gradient that grad returns for a real-valued answer of a simulation (efficiencies in total or by order, complex amplitudes, fields in Fourier or real space, stress, scattering matrix) with respect to thicknesses, uniform permittivities, permittivity maps, wavelength, angles or lattice vectors is the derivative of that answer, and it equals the gradient obtained on newly built objects. This holds for parameters set by editing a layer and resetting, by building new layers, by copies or by constructor arguments, for layers shared between simulations, with further arguments passed through, whatever was asked, solved, edited, differentiated or interrupted before. Once edited layers have their plain values back and the simulation is reset, every later answer is that of a simulation that was never differentiated, and the point passed to grad is unchanged.",
 ["histories", "inputs", "fault_sequences"], "all sequences of plain and differentiated queries, edits, resets and interruptions on autograd and torch, where the modes are differentiable (distinct eigenvalues, or a parameter that leaves the modes unchanged)",
 "Tests differentiate one objective once on new objects; lost or stale derivatives appear when modes, scattering matrices or copies are reused, for particular answers and parameters, and traced values left in a cache only show in a later query.",
 [SIM, LAY, INI], [("gradient wrappers of the backends", INI + " grad"), ("answers assembled without assignment into arrays", SIM + " Simulation.get_field_fourier"),
  ("modes reused only for identical materials", LAY + " Layer.has_same_modes"), ("thickness read at query time", SIM + " Simulation._get_solved_layer")],
 observe=["return values of grad", "later return values of every query"])

prop("C24", "Plots show the structure as it is, and plotting leaves no trace",
 "At any point of a session, plotting a layer draws the real or imaginary part of the permittivity it has at that moment, on the grid of its lattice, once for every period asked for and moved by whole lattice vectors, with the outline of the cell if wanted; plotting the structure draws every layer that is not vacuum in its place: uniform layers as slabs with their permittivity, patterned layers pixel by pixel for each value of their permittivity, stacked in order with current thicknesses (zero thicknesses replaced as documented) and gaps, in every period, with the colours and options given, on the plotter given, which is returned. This holds on all lattices and grids, before and after solving, edits, resets and plots that failed. A failure of the drawing package reaches the caller, and no answer given later is affected by a plot.",
 ["histories", "inputs", "fault_sequences"], "all sequences of plots, queries, edits and drawing failures on all isotropic structures",
 "Tests only call the plot functions once on one structure and look at nothing.",
 ["nannos/plot.py", SIM, LAY], [("layer plot", LAY + " Layer.plot, nannos/plot.py plot_layer"), ("structure plot", SIM + " Simulation.plot_structure, nannos/plot.py plot_structure")],
 observe=["calls received by axes and plotter", "later return values of every query"])

# ---- stated, but not decidable with deterministic simulation (pure functions)
prop("N01", "Solutions converge to Maxwell's equations with increasing harmonics",
 "With increasing numbers of harmonics and finer sampling of the unit cell, efficiencies and fields of every formulation converge to the solution of Maxwell's equations for the given structure.",
 ["inputs"], "all structures", "Tests check a few structures at fixed truncation.", [SIM], [("Fourier modal method", SIM)])
prop("N02", "Harmonic sets are symmetric, duplicate-free and ordered by truncation rule",
 "For every lattice and requested size, the generated set of harmonics contains the zeroth order, contains no duplicates, is closed under sign reversal, and is the set the truncation rule selects, never larger than requested.",
 ["inputs"], "all lattices and sizes", "Tests use a few lattices.", ["nannos/lattice.py"], [("truncation", "nannos/lattice.py _circular_truncation, _parallelogramic_truncation, _one_dim_truncation")])
prop("N03", "Geometry masks contain exactly the grid points inside the shape",
 "For every lattice, a geometry mask is true exactly on the grid points lying inside the given polygon, circle, ellipse, square, rectangle or stripe.",
 ["inputs"], "all shapes and lattices", "Tests draw a few shapes.", ["nannos/geometry.py", "nannos/lattice.py"], [("rasterisation", "nannos/geometry.py")])
prop("N04", "Forward and inverse Fourier transforms are mutual inverses on every backend",
 "Transforming any array forwards and backwards returns it, and the forward transform equals the discrete Fourier coefficients.",
 ["inputs"], "all arrays", "Tests use one array.", ["nannos/formulations/fft.py"], [("fft wrappers", "nannos/formulations/fft.py")])
prop("N05", "Projection, interpolation and filtering of designs are monotone and bounded",
 "Projections and filters map designs in [0, 1] into [0, 1], projections and power-law interpolation are monotone and hit their end points, and filters preserve constants.",
 ["inputs"], "all designs and parameters", "Tests use a few values.", ["nannos/optimize.py", "nannos/utils/helpers.py"], [("project, simp, apply_filter", "nannos/optimize.py, nannos/utils/helpers.py")])
prop("N06", "Tangent and Jones fields are normalised, periodic and follow material edges",
 "For every permittivity map the automatically generated vector fields are tangent to material interfaces, periodic and normalised as requested.",
 ["inputs"], "all permittivity maps", "Tests run each type once.", ["nannos/formulations/tangent.py", "nannos/formulations/jones.py"], [("tangent field generation", "nannos/formulations/tangent.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
