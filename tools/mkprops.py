"""Writes /verif/properties.jsonl (the list is maintained here, one place, stable ids)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "One set of numbers: all handles show and write the same values",
 "After any sequence of linking, unlinking, moving, re-ordering, writing, copying and loading - also when user callbacks raised part-way - every node's flat value vector and flat gradient vector is the in-order concatenation of its children's. A write of values or gradients through any handle (root, subtree, leaf, index, slice, mask, name, pattern) is at once visible through every other handle and changes no other scalar.",
 ["histories", "fault_sequences", "programs"],
 "every hierarchy shape, every sequence of structural and value operations through any mix of handles, every callback that raises during them",
 "The tests link a handful of fixed hierarchies and compare a few arrays; memory re-connection after long structural histories, through every kind of handle and with callbacks failing in between, is never sampled.",
 ["paramz/core/parameter_core.py", "paramz/parameterized.py", "paramz/param.py"],
 [("_propagate_param_grad", "paramz/core/parameter_core.py"), ("_connect_parameters", "paramz/parameterized.py"), ("link_parameter/unlink_parameter", "paramz/parameterized.py")],
 [("param_array", "the in-memory flat values of a node", "paramz/core/parameter_core.py"), ("gradient", "the in-memory flat gradient of a node", "paramz/core/parameter_core.py")],
 ["Parameterized.param_array", "Param.values", "gradient", "m[...]", "m.name"])

prop("C02", "A constraint or fix stays with exactly the scalars it was put on",
 "Each scalar carries exactly the constraint and the fixed flag that the last constrain / unconstrain / fix / unfix applied to it through any handle gave it, whatever was linked, unlinked, moved, re-ordered, renamed, copied or loaded since and whichever user callbacks raised meanwhile. All handles that contain a scalar report the same constraints for it, and fixing and then unfixing gives back the constraint held before. What an index operation added by the user (priors, say) attaches to scalars stays with them in the same way.",
 ["histories", "fault_sequences", "programs"],
 "every sequence of constraint and structural operations through leaf, slice, mask, node, root and pattern handles, and every callback failure during them",
 "The tests check a few constrain/unconstrain pairs on one or two hierarchies; index bookkeeping after arbitrary structural histories (offsets, shifts, views) is a universally quantified fact.",
 ["paramz/core/index_operations.py", "paramz/core/indexable.py", "paramz/core/constrainable.py", "paramz/parameterized.py"],
 [("ParameterIndexOperations.shift_left/shift_right/add/remove", "paramz/core/index_operations.py"), ("ParameterIndexOperationsView", "paramz/core/index_operations.py"), ("_parent_changed/_disconnect_parent", "paramz/core/indexable.py")],
 [("constraints", "map from constraint to flat indices, seen from a node", "paramz/core/indexable.py")],
 ["node.constraints.items()", "is_fixed", "unconstrain()/unfix() return values"])

prop("C03", "Fixed means fixed, and the optimizer sees exactly the free scalars",
 "At every node, after any history, the optimizer vector has exactly one entry per unfixed scalar below that node, in parameter order, and the flat parameter names line up with those entries one to one. Setting that vector, randomizing, optimizing or restarting - also when the evaluation fails or is interrupted - never changes the value of a fixed scalar and leaves every scalar outside the node alone.",
 ["histories", "fault_sequences"],
 "every fixing/unfixing/structural history, every node at which the vector is read or set, every failure injected during set, randomize or optimize",
 "Tests fix one or two parameters on a fixed model and look at the root; the guarantee is about every node after every history and about evaluations that fail in the middle.",
 ["paramz/core/constrainable.py", "paramz/core/parameter_core.py", "paramz/param.py"],
 [("optimizer_array", "paramz/core/parameter_core.py"), ("_ensure_fixes/_connect_fixes/_set_fixed", "paramz/core/constrainable.py"), ("randomize", "paramz/core/parameter_core.py")],
 [], ["optimizer_array", "parameter_names_flat", "param_array"])

prop("C04", "Constrained values always lie in their constraint's domain",
 "Constraining moves out-of-range values of the targeted scalars into the constraint's domain at once and leaves in-range values as they are. Whatever finite vector an optimizer, randomize or a restart then writes - at any node, also when the evaluation that follows raises - each constrained free scalar has the value of the constraint's transformation of its entry, lies inside the constraint's domain, and an unconstrained free scalar takes its entry as it is.",
 ["histories", "inputs", "fault_sequences"],
 "every constraint history, every handle the constraint was applied through, every finite optimizer vector including extreme ones, every evaluation failure",
 "Tests transform a few moderate values on static models; domain membership has to hold for each write an optimizer makes, on mixed and partly fixed parameters, and after failures.",
 ["paramz/transformations.py", "paramz/core/constrainable.py", "paramz/core/parameter_core.py"],
 [("Transformation.f/initialize", "paramz/transformations.py"), ("constrain", "paramz/core/constrainable.py"), ("optimizer_array setter", "paramz/core/parameter_core.py")],
 [], ["param_array after optimizer_array=...", "param_array after constrain"])

prop("C05", "The optimizer vector is never stale and round-trips",
 "Reading the optimizer vector at any node at any time shows the current values under the current constraints and fixes, whatever happened before: writes with updates off, direct leaf or in-place array writes, (un)constraining, (un)fixing, failed evaluations. Where the constraints are invertible at the values concerned, writing back a vector just read changes no value beyond rounding and a vector written (away from saturation) is the vector read next, and the array handed out is not altered by later activity of the model.",
 ["histories", "fault_sequences"],
 "every interleaving of reads and writes of the vector with every other kind of change and with failing callbacks",
 "The cached copy behind the vector is invalidated by notifications; tests read it right after construction and cannot cover all the ways a notification can be missing, gated or aborted.",
 ["paramz/core/parameter_core.py"],
 [("optimizer_array", "paramz/core/parameter_core.py")],
 [], ["optimizer_array"])

prop("C06", "Observers: each live registration is told exactly once, in order",
 "When an observable changes with notifications on, each registration that stays live and registered throughout is called exactly once with the changed object, in descending priority and in order of registration among equals; registrations whose observer has died or that were removed before the change are not called, and those at or below a minimum priority are skipped when one is given. Registering, removing, re-prioritising or dying inside a callback neither loses nor duplicates the delivery to others, a raising callback leaves the registry intact so that the next change is delivered in full, and being registered does not by itself keep an observer alive.",
 ["schedules", "histories", "fault_sequences"],
 "every set of registrations with every mix of priorities, every re-entrant change to the registry during delivery, every point at which an observer dies or a callback raises",
 "Tests register one or two observers and change an array once; re-entrancy, death during delivery and exceptions are not sampled.",
 ["paramz/core/observable.py", "paramz/core/lists_and_dicts.py", "paramz/core/observable_array.py"],
 [("notify_observers", "paramz/core/observable.py"), ("ObserverList.add/remove/flush", "paramz/core/lists_and_dicts.py")],
 [("observers", "the priority-ordered registry of an observable", "paramz/core/observable.py")],
 ["callbacks received by registered observers"])

prop("C07", "Every change reaches parameters_changed of all it concerns, bottom-up",
 "With updates on, when a value change, constraint change or optimizer write returns, parameters_changed has run on every node containing a changed scalar, exactly once per delivered change, children before their parents, so that state derived there agrees with the current values; a change that is only to fixed values is no exception. With updates off it runs nowhere, and switching updates on again - from any node - brings the derived state of the whole hierarchy up to date; a callback that raised earlier does not keep later changes from being propagated.",
 ["histories", "fault_sequences", "schedules"],
 "every hierarchy, every handle a change is made through, every sequence of gating (update_model on/off from any node), every callback failure",
 "Tests count notifications for a couple of writes on one model; which nodes must be refreshed after a change anywhere, with gating, fixing and failures interleaved, is unbounded.",
 ["paramz/core/updateable.py", "paramz/core/parameter_core.py", "paramz/core/observable.py", "paramz/parameterized.py", "paramz/param.py"],
 [("trigger_update/update_model", "paramz/core/updateable.py"), ("_trigger_params_changed", "paramz/core/parameter_core.py"), ("_pass_through_notify_observers", "paramz/core/parameter_core.py")],
 [("update_model()", "whether automatic updates are on", "paramz/core/updateable.py")],
 ["parameters_changed invocations and what they could see"])

prop("C08", "A cached function never returns a stale or foreign result",
 "A cached function or cached method called with cacheable arguments (observable arrays, numbers, strings, None; positional or keyword) returns at every call what the underlying function would return for the current contents of those arguments. This holds whatever the history of changes to the arguments (directly, in place or through views), evictions, garbage collection and re-use of memory addresses, failures inside the function, calls and changes made from inside the function, switching caching off and on, resets, and copies of the owner.",
 ["histories", "schedules", "fault_sequences"],
 "every interleaving of calls, argument changes, evictions, collections, address re-use, exceptions and re-entrant calls, for every cache size",
 "Tests run short scripted call sequences on one or two arrays; staleness needs particular interleavings of change, eviction, re-entrancy and identity re-use.",
 ["paramz/caching.py", "paramz/core/observable_array.py"],
 [("Cacher.__call__", "paramz/caching.py"), ("on_cache_changed", "paramz/caching.py"), ("ensure_cache_length/add_to_cache/reset", "paramz/caching.py")],
 [], ["return values of Cacher / Cache_this"])

prop("C09", "Caching is economical, bounded and leaves nothing behind",
 "A cached call repeated with unchanged arguments, fewer than the cache limit of other argument combinations having entered the cache since it did, does not run the function again, and one change of an argument costs at most one recomputation per affected combination. At most the limit of results is retained, and results, arguments and observer registrations that belong to evicted, reset or disabled cache content are released, also after the function raised; ignored arguments do not distinguish calls, and forcing arguments and uncacheable arguments always compute.",
 ["histories", "fault_sequences"],
 "every call history, cache limit, exception point, collection point and on/off/reset sequence",
 "Tests count evaluations in short scripts for limit 1-5; bookkeeping leaks need long mixed histories with exceptions and evictions.",
 ["paramz/caching.py"],
 [("ensure_cache_length", "paramz/caching.py"), ("add_to_cache", "paramz/caching.py"), ("reset/disable_cacher", "paramz/caching.py")],
 [], ["number of executions of the underlying function", "liveness of results and arguments", "registrations on the arguments"])

prop("C10", "Transient numerical failures are absorbed, persistent ones surface",
 "While an optimizer drives a model, a LinAlgError, ZeroDivisionError or ValueError from evaluating it is absorbed: the optimizer is given an infinite objective and a clipped gradient, up to ten consecutive failures, and the next failure in a row raises the original exception. Any successful evaluation restores the full allowance - within a run or in a later one -; any other exception propagates at once.",
 ["fault_sequences", "schedules"],
 "every sequence of objective / gradient / combined evaluations an optimizer may make, every pattern of successes and failures, across consecutive runs",
 "No test makes the objective fail; the allowance is state carried across evaluations and runs, so only sequences exercise it.",
 ["paramz/model.py"],
 [("_objective/_grads/_objective_grads", "paramz/model.py")],
 [], ["values returned to the optimizer", "exceptions leaving optimize"])

prop("C11", "optimize() leaves the model at the optimum it reports, or raises cleanly",
 "When optimize returns, the model's optimizer vector is the reported x_opt, the reported f_opt is the model's objective there, exactly one run has been appended to the records, later activity does not alter it, its status and evaluation count are those the optimizer ended with (a run stopped by its budget or failing is not reported as converged, nor the reverse), and it kept to the max_iters it was given. When it raises, nothing has been recorded, nothing is left registered on the model, fixed values are untouched and a later optimize works as usual.",
 ["fault_sequences", "histories", "configurations"],
 "every optimizer (built-in or user-supplied, however it orders its evaluations), every failure or interrupt at any evaluation, with and without messages, updates on or off before",
 "Tests run each optimizer once on a benign objective; aliasing, failures at an arbitrary evaluation and last-evaluation-is-not-the-optimum orders are not sampled.",
 ["paramz/model.py", "paramz/optimization/optimization.py", "paramz/optimization/scg.py", "paramz/optimization/verbose_optimization.py"],
 [("Model.optimize", "paramz/model.py"), ("Optimizer.run and the opt_* wrappers", "paramz/optimization/optimization.py")],
 [("optimization_runs", "record of finished runs", "paramz/model.py")],
 ["optimizer_array", "optimization_runs", "observers"])

prop("C12", "Restarts end at the best run; failed restarts cost nothing",
 "optimize_restarts records one run per restart that finished, in order, prints a line for each and leaves the model at the parameters of the run with the lowest (non-NaN) objective among those of this call. With robust set a failing restart is skipped and, if all fail, the model is put back to the values it had; without it the first failure is raised.",
 ["fault_sequences", "histories"],
 "every pattern of failing, interrupted, NaN and successful restarts, every starting state, earlier records present or not",
 "The one test lets all restarts succeed on a convex problem, where every run ends in the same place.",
 ["paramz/model.py"],
 [("optimize_restarts", "paramz/model.py")],
 [("optimization_runs", "record of finished runs", "paramz/model.py")],
 ["optimizer_array", "param_array", "optimization_runs", "stdout"])

prop("C13", "Parallel restarts do not depend on worker scheduling and survive failures",
 "With parallel set, whatever the number, order and speed of the workers, the recorded runs correspond one to one, in order, to the copies the caller prepared - one of them at the model's own values, the others at random ones - and the model ends at the best of them. A worker's failure is treated as in the serial case (skipped if robust, raised otherwise), failures and interrupts leave no pool open, and the caller's model is only changed by the final choice.",
 ["schedules", "fault_sequences"],
 "every completion order, worker count and pattern of failing workers or interrupts",
 "The parallel branch is excluded from coverage (pragma: no cover); no test runs it.",
 ["paramz/model.py"],
 [("optimize_restarts parallel branch", "paramz/model.py"), ("opt_wrapper", "paramz/model.py")],
 [], ["optimization_runs", "optimizer_array", "pool lifecycle"])

prop("C14", "Saving is exact or fails loudly; it never harms model or older file",
 "A model saved and loaded back has the same structure, names, shapes, values, constraints and fixes, is internally consistent and independent of the original, whatever history it was saved after. If writing fails or is cut off at any byte the save raises or the file does not load - it never loads as a different model - the model in memory is unchanged and can be saved again, and a model that cannot be serialised leaves an existing file as it was.",
 ["crash_points", "fault_sequences", "histories"],
 "every byte position of a crash, short write, full disk or I/O error, every model history before the save, path and file-object targets, every protocol",
 "Tests round-trip a few fixed models through healthy temporary files.",
 ["paramz/core/pickleable.py", "paramz/__init__.py", "paramz/core/observable_array.py", "paramz/core/indexable.py", "paramz/parameterized.py"],
 [("Pickleable.pickle/__getstate__/__setstate__", "paramz/core/pickleable.py"), ("load", "paramz/__init__.py"), ("ObsAr.__reduce__", "paramz/core/observable_array.py")],
 [], ["the loaded model", "the bytes of the file", "the original model"])

prop("C15", "A copy equals its original and shares nothing with it",
 "Copying a model, subtree, parameter or observable array gives an object with the same structure, names, values, constraints and fixes, cut off from the original's parents and observers. Afterwards no operation on the one - writes, constraints, structure, optimizing, caching - is visible in the other, the copy's cached methods compute from the copy, and a copy aborted by a raising callback leaves the original unchanged and fully working.",
 ["histories", "fault_sequences"],
 "every history before the copy, every interleaving of operations on original and copy afterwards, every callback failure during copying",
 "Tests copy a few objects and compare once; independence is about all later interleavings.",
 ["paramz/core/pickleable.py", "paramz/parameterized.py", "paramz/param.py", "paramz/core/observable_array.py", "paramz/caching.py"],
 [("Pickleable.copy/__deepcopy__", "paramz/core/pickleable.py"), ("Parameterized.copy", "paramz/parameterized.py"), ("Cacher.__deepcopy__", "paramz/caching.py")],
 [], ["both hierarchies after each operation"])

prop("C16", "Progress display is a pure spectator",
 "Optimizing with progress messages, in a terminal or a notebook, lets the optimizer ask for the same evaluations at the same points, gives it the same answers, and ends in the same model, record and random-number state as without, however the clock runs, jumps or stands still and with numpy set to raise instead of warn; a terminal that fails or is closed meanwhile never changes an answer (the run goes on, or ends with the terminal's own error). When the run ends - normally, by failure or by interrupt - the display is no longer attached to the model, and the elapsed time it prints is the clock time between start and end, in well-formed output; the notebook display ends with the status on record and is closed if asked to.",
 ["schedules", "fault_sequences", "configurations"],
 "every behaviour of the clock between evaluations, every evaluation pattern, every point of failure, seeded random objectives",
 "Tests print to a buffer for a few seconds values; a stepped or stalled clock and failures while displaying are never simulated.",
 ["paramz/optimization/verbose_optimization.py", "paramz/model.py"],
 [("VerboseOptimization", "paramz/optimization/verbose_optimization.py")],
 [], ["evaluation log", "np.random state", "observers of the model", "stdout"])

prop("C17", "A rejected operation leaves everything as it was",
 "An operation the library rejects - linking an object into itself, below itself or twice into one hierarchy, unlinking a non-child, constraining with a non-transformation or inverted bounds, setting values or an optimizer vector of the wrong size, looking up an unknown name, gradient-checking a non-model - raises its error promptly instead of hanging or half applying. Afterwards structure, values, constraints and names are as before and every later operation, also on the rejected object, works as if the attempt had not been made, likewise after a traversal whose visitor raised.",
 ["histories", "fault_sequences"],
 "every rejected operation at every point of every history, and every continuation after it",
 "Tests assert that a few errors are raised on fresh objects; they do not go on using the objects, nor try all kinds of rejected operation.",
 ["paramz/parameterized.py", "paramz/core/constrainable.py", "paramz/core/parameter_core.py", "paramz/transformations.py"],
 [("link_parameter/unlink_parameter checks", "paramz/parameterized.py"), ("traverse/traverse_parents", "paramz/core/parameter_core.py"), ("Logistic.__new__/__init__", "paramz/transformations.py")],
 [], ["exceptions raised", "state of all hierarchies before and after"])

prop("C18", "Siblings have distinct names and every name finds its parameter",
 "After any sequence of linking, unlinking, re-ordering, moving and renaming, siblings have pairwise different names (also once converted to identifiers), only names that collided were altered (by a numeric suffix), and no stale attribute of a removed or renamed child remains. Lookup by a child's path gives exactly that child. For every child whose name does not coincide with an attribute its parent has of its own, attribute access by its current name gives it too, and assigning to that attribute writes its values; a name that does coincide leaves the parent's attribute and its behaviour (also copying, saving and loading) as they were.",
 ["histories"],
 "every sequence of structural and renaming operations with colliding and non-colliding names",
 "Tests try a few collisions; name bookkeeping after long histories of moves and renames is not sampled.",
 ["paramz/core/parameter_core.py", "paramz/core/nameable.py", "paramz/parameterized.py"],
 [("_add_parameter_name/_remove_parameter_name/_name_changed", "paramz/core/parameter_core.py"), ("grep_param_names", "paramz/parameterized.py")],
 [], ["name", "attribute access", "parameter_names", "m['path']"])

prop("C19", "Equal constraints are one constraint, whoever creates them and when",
 "Two requests for the same kind of constraint with the same bounds give the same constraint for as long as either is in use, and different bounds give different, correctly bounded ones - whatever threads ask concurrently, whatever was garbage collected, copied, saved and loaded, or rejected for bad bounds in between. So a bound put on anywhere can be taken off by naming its limits, also on a copied or loaded model, and no request ever observes a half-made constraint.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of concurrent requests at line granularity, every collection point, every rejected construction, every copy/load",
 "Tests create bounded constraints in one thread and never collect, pickle or fail in between.",
 ["paramz/transformations.py"],
 [("Logistic.__new__", "paramz/transformations.py"), ("Transformation.__new__", "paramz/transformations.py")],
 [], ["identity and bounds of returned constraints", "unconstrain_bounded on models"])

prop("C20", "Gradient checks judge truly and disturb nothing",
 "checkgrad on a model, subtree, parameter or selection answers true when the analytical gradient of every free scalar checked matches the objective's slope there and false when one is clearly off, whatever constraints and fixes apply and however often it is asked, and it judges only the selected scalars. After it returns - or raises because an evaluation failed - the model's values (up to rounding), constraints, fixes, records and observers are as before and, after a return, values and stored gradient agree.",
 ["histories", "fault_sequences"],
 "every constraint/fix history, every selection, every evaluation at which a failure is injected, any random direction",
 "Tests check a few models; wrong gradients hidden behind constraints or selections and failures in the middle of a check are not sampled.",
 ["paramz/model.py", "paramz/core/gradcheckable.py", "paramz/core/indexable.py"],
 [("_checkgrad", "paramz/model.py"), ("_raveled_index_for_transformed", "paramz/core/indexable.py")],
 [], ["return value of checkgrad", "model state before and after"])

prop("C21", "The gradient given to the optimizer is the slope of the objective it sees",
 "At every evaluation an optimizer makes, through any mix of objective, gradient and combined calls and with failed evaluations in between, the gradient it is given is the model's gradient at the requested point, chain-ruled through each constraint (where its transformation is invertible), with exactly the fixed entries left out, and the objective it is given is the model's at that point. Arrays handed to the optimizer earlier are not altered by later evaluations and the model's own gradient is not corrupted by being read.",
 ["schedules", "fault_sequences", "histories"],
 "every constraint/fix configuration reached by any history, every order of evaluations, every pattern of transient failures",
 "Tests rely on checkgrad of simple positive-constrained models; the mapping must hold for every constraint, layout and evaluation order.",
 ["paramz/model.py", "paramz/core/parameter_core.py", "paramz/transformations.py"],
 [("_transform_gradients", "paramz/core/parameter_core.py"), ("gradfactor", "paramz/transformations.py"), ("_grads/_objective_grads", "paramz/model.py")],
 [], ["values returned to the optimizer"])

prop("C22", "A multi-parameter selection acts as the concatenation of its members",
 "A pattern that matches several parameters gives a handle that, each time it is used and for as long as the hierarchy keeps its structure, reads as the concatenation in hierarchy order of the current values of all matching leaves, without repeats. Writing to it (whole, index, slice, mask, in-place arithmetic) or constraining, fixing, unfixing or gradient-checking through it has exactly the effect of doing so on each member, and each such change is propagated to every node above, every time.",
 ["histories", "fault_sequences"],
 "every hierarchy and pattern, every sequence of uses of the same handle, callbacks failing in between",
 "Tests write through a fresh handle once; repeated use of one handle, partial indices and zero values are not sampled.",
 ["paramz/param.py", "paramz/parameterized.py"],
 [("ParamConcatenation", "paramz/param.py"), ("grep_param_names", "paramz/parameterized.py")],
 [], ["m['regexp']"])

prop("C23", "Scaled conjugate gradients is monotone, honest and terminates",
 "For any objective - including one that intermittently returns infinity or NaN - the SCG optimizer's logged objective never increases, its final entry is the objective at the returned point, and it makes no more than the allowed iterations. The number of evaluations it reports is the number it made, its status says why it stopped, it leaves the arrays it was given unmodified, it evaluates no undefined point as long as values and slopes are ordinary, and on a noise-free convex quadratic it reaches the minimum within the allowed iterations.",
 ["fault_sequences", "inputs"],
 "every objective landscape, start, tolerance and pattern of infinite or NaN evaluations",
 "Tests run SCG on one regression problem and look at the end result.",
 ["paramz/optimization/scg.py", "paramz/optimization/optimization.py"],
 [("SCG", "paramz/optimization/scg.py"), ("opt_SCG", "paramz/optimization/optimization.py")],
 [], ["return value of SCG", "evaluation log"])

prop("C24", "Models used by different threads do not disturb each other",
 "When several threads each build, constrain, change, observe, cache, copy, save and optimize models of their own, each thread's results are the same as if it had run alone, whatever the interleaving. No thread sees another's values, constraints, cache entries or notifications and none fails because of the other's activity.",
 ["schedules"],
 "every interleaving of two to four threads at source-line granularity",
 "All tests are single-threaded; the library keeps process-wide state (shared constraint objects, class-level attributes set during construction).",
 ["paramz/transformations.py", "paramz/parameterized.py", "paramz/core/indexable.py", "paramz/caching.py"],
 [("shared transformation instances", "paramz/transformations.py"), ("ParametersChangedMeta.__call__", "paramz/parameterized.py"), ("class-level property set by _add_io", "paramz/core/indexable.py")],
 [], ["per-thread observation logs against the single-threaded reference"])

prop("C25", "Constraint transformations are bijections with correct derivatives",
 "Each constraint's forward map and inverse compose to the identity on its domain away from saturation, and its gradient factor is the derivative of the forward map.",
 ["inputs"], "every real input",
 "Tests sample a grid; the claim is over all reals.",
 ["paramz/transformations.py"], [("Transformation subclasses", "paramz/transformations.py")], [], ["f, finv, gradfactor"])
prop("C26", "Printed summaries show every parameter with its value and constraints",
 "After any history of building, renaming, moving, constraining, fixing, writing, copying and failing operations, the text and HTML summaries of a model list each leaf parameter once, in order, with its path, value or shape and its constraints, next to the right counts of parameters and free parameters; those of a parameter, a slice or a selection list each entry with its index, value and constraints. They never fail for a well-formed model and change nothing.",
 ["histories", "programs"], "every model and history", "Tests check that printing does not raise for a few models.",
 ["paramz/parameterized.py", "paramz/param.py"], [("__str__/_repr_html_", "paramz/parameterized.py")], [], ["str(m)"])
prop("C27", "HDF5 export writes the parameter values it names",
 "After any history, saving a model, a part of it or a parameter to HDF5 either puts each parameter's values, in its shape, under its path below the saved object (dots become underscores) and the full value vector under param_array, or raises - whatever step of opening, creating, writing or closing fails - and leaves no file open and the model as it was. Parameters whose names would meet are refused, not overwritten.",
 ["inputs", "histories", "fault_sequences"], "every model and I/O fault", "Never tested: h5py is optional and absent.",
 ["paramz/core/parameter_core.py"], [("save", "paramz/core/parameter_core.py")], [], ["the HDF5 file"])
prop("C28", "climin-backed optimizers report what they found",
 "Optimizing with Adadelta, RProp or Adam makes the steps climin's minimiser makes with the given options, as many as the iteration limit allows (at least one), leaves the model at the point where it ended, and records that point, the objective there and the number of evaluations; failing evaluations and interrupts are treated as with any other optimizer, and restarts end at the best run.",
 ["inputs", "configurations"], "every objective", "Never run in the tests unless climin is installed.",
 ["paramz/optimization/optimization.py"], [("Opt_Adadelta/RProp/Adam", "paramz/optimization/optimization.py")], [], ["x_opt"])

prop("C29", "The shipped regression models agree with their formula at all times",
 "Whatever is done to a ridge or lasso regression model from the examples - writing weights through any handle, setting the optimizer vector, changing inputs or targets in place or replacing them, fixing, bounding, switching updates, optimizing, restarting, checking gradients, copying, switching its cache, a user-defined basis that raises part-way - once it has been told of the last change its objective and gradient are those of the written formula for its current data and weights, predictions and basis matrices are those of the current weights and of the inputs as they are now, fixed weights stay, f_opt is the formula's value, runs do not get worse, and a converged run reaches the optimum. Copies live lives of their own.",
 ["histories", "fault_sequences", "inputs"],
 "every data set, basis, regularizer and history of operations, and every basis evaluation that raises",
 "The tests optimize one polynomial model once and check its gradient; stale caches, notifications in the wrong order or missed ones only show over histories of changes in which evaluations also fail.",
 ["paramz/examples/ridge_regression.py", "paramz/caching.py", "paramz/model.py", "paramz/core/parameter_core.py"],
 [("RidgeRegression.parameters_changed/predict/phi", "paramz/examples/ridge_regression.py"), ("Basis/Regularizer", "paramz/examples/ridge_regression.py"), ("Cacher", "paramz/caching.py")],
 [], ["objective_function()", "weights.gradient", "predict", "phi", "optimization_runs"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
