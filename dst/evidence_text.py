"""Static descriptions that go into MANIFEST.json and the evidence files next to the measured numbers."""
COMMON = ["sampled, not exhaustive: a clean batch is evidence, not proof",
          "numpy, scipy and CPython are trusted",
          "faults are injected at callback, clock, pool, file and thread seams, not at arbitrary bytecodes of paramz"]

NOT_APPLICABLE = {
    "C25": "f, finv and gradfactor are pure functions of their input: no schedule, fault, clock or history can influence them, so simulation has nothing to decide (their use inside histories is checked under C04, C05 and C21)",
}

_HIER_STUBS = ["the user's model classes (dst/zoo.py), whose callbacks are the fault seam", "a scripted optimizer", "np.random (seeded)", "np.empty (fills with one fixed value)"]
_HIER_ASSUME = ["hierarchies of up to 15 initial objects plus copies, at most 60 operations, scalars per leaf <= 6",
                "constraint kinds: Logexp, NegativeLogexp, Exponent, NegativeExponent, Square (non-negative entries), Logistic"]

def _hier(what):
    return dict(technique="deterministic simulation: seeded operation histories with raising callbacks against a reference model",
                note="Seeded search over histories on the real library, compared after the steps with an independent executable model of a parameter tree (%s). Callbacks raise at chosen invocations. A clean run is evidence for the sampled histories, not a proof; trusts numpy and the reference model." % what,
                rule="one evaluation = one seeded history of 3-75 operations; distinct by event-log digest (all operations, outcomes and notification orders); non-trivial = it ran more than two operations or a fault fired",
                state_measure="hash of the reference model: tree shape, leaf sizes, constraint kinds and fixes, update flags after each look",
                interleaving_measure="hash of the sequence (operation, outcome, order in which parameters_changed ran)",
                assumptions=_HIER_ASSUME, stubs=_HIER_STUBS)

TEXT = {
    "C01": _hier("values and gradients of every node = concatenation of the leaves"),
    "C02": _hier("constraint and fixed flag of every scalar, through every handle"),
    "C03": _hier("free scalars, their order and names, fixed values never move"),
    "C04": _hier("domain membership and the transformation of each entry"),
    "C05": _hier("the optimizer vector recomputed from the model's own values by independent inverse formulas"),
    "C07": _hier("which nodes have to be notified, in which order, and derived state recomputed"),
    "C15": _hier("original and copies are separate reference trees, each checked after each operation on any"),
    "C17": _hier("after a rejected operation the reference model is unchanged"),
    "C18": _hier("names, attributes and path lookups"),
    "C22": _hier("a held selection is the list of its member leaves"),
    "C06": dict(technique="deterministic simulation: seeded registration/notification histories with re-entrant, dying and raising observers against a list model",
                note="Seeded search; every callback of every observer is a seam at which the plan registers, removes, re-prioritises, notifies, kills observers or raises, up to three deep. Deliveries are compared with a list model. Evidence, not proof.",
                rule="one evaluation = one seeded history of registry operations and changes; distinct by event-log digest; non-trivial = a callback re-entered, an observer died or a callback raised",
                state_measure="hash of the priorities registered per subject and the number of live observers",
                interleaving_measure="hash of the sequence of delivered callbacks",
                assumptions=["up to 6 subjects (plain observable, arrays, a three-level tree), callbacks re-enter at most three deep"],
                stubs=["observers (user code)", "np.empty (fills with one fixed value)"]),
    "C08": dict(technique="deterministic simulation: seeded call/change histories with re-entrant functions, exceptions, evictions and address re-use, each result recomputed",
                note="Seeded search; every call's result is compared with what the underlying function gives for the current contents. The simulator owns address re-use (id), garbage collection and what happens inside the cached function. Evidence, not proof.",
                rule="one evaluation = one seeded history of cached calls, argument changes, resets and switches; distinct by event-log digest; non-trivial = a fault or re-entrant action happened",
                state_measure="hash of the cache model: switched on, limit, number and validity of entries",
                interleaving_measure="hash of the sequence of executions of the underlying functions",
                assumptions=["cached functions are pure up to the injected actions", "arguments: observable arrays and views, parameters, nodes, numbers, strings, None"],
                stubs=["the cached functions and argument objects (user code)", "id() of arguments is re-used under the simulator's control"]),
    "C09": dict(technique="deterministic simulation: seeded call/change histories, executions, retention and registrations accounted against a cache model",
                note="Seeded search; counts executions of the underlying function against a first-in-first-out model with the configured limit and accounts for every live result, argument and registration after collection. Evidence, not proof.",
                rule="one evaluation = one seeded history of cached calls, argument changes, resets and switches; distinct by event-log digest; non-trivial = a fault or re-entrant action happened",
                state_measure="hash of the cache model: switched on, limit, number and validity of entries",
                interleaving_measure="hash of the sequence of executions of the underlying functions",
                assumptions=["cached functions are pure up to the injected actions", "entries leave in the order they entered"],
                stubs=["the cached functions and argument objects (user code)", "id() of arguments is re-used under the simulator's control"]),
}

def _opt(what, deliveries):
    return dict(technique="deterministic simulation: seeded optimizer runs with failing, infinite and undefined evaluations, a stepped clock and interrupts, checked against an independent account of every evaluation",
                note="Seeded search over models, constraints, optimizers and fault schedules on the real library. A control between optimizer and model sees every evaluation, decides which fail and how, and owns the clock; %s. Evidence for the sampled runs, not a proof; trusts numpy and scipy." % what,
                rule="one evaluation = one seeded history of changes and optimizer calls (with all their evaluations); distinct by event-log digest; non-trivial = a fault fired or an optimizer ran",
                state_measure="hash of structure, constraint kinds, fixes, update flag and outcome of each call",
                interleaving_measure=deliveries,
                assumptions=["models of up to 4 nodes and 12 scalars, up to 6 calls per history, up to 60 scripted or a few hundred scipy evaluations per call",
                             "constraint kinds: Logexp, NegativeLogexp, Exponent, NegativeExponent, Square, Logistic"],
                stubs=["the user's model classes (dst/optzoo.py), whose objective, gradient and callbacks are the fault seam", "scripted optimizers next to the shipped ones", "climin (dst/climin_stub.py, behind adadelta, rprop and adam)", "IPython and ipywidgets (dst/notebook_stub.py)", "clock (time.time, datetime.now)", "np.random (seeded)", "stdout (captured)"])

_EV = "hash of the sequence of evaluations asked for, with which of them failed"
TEXT.update({
    "C10": _opt("it keeps its own count of consecutive failures and says what each evaluation has to return or raise", _EV),
    "C11": _opt("it recomputes the objective at the reported point and compares record, model and reported values", _EV),
    "C12": _opt("it keeps the outcome of every restart and says which of them the model has to end with, also with worker pools that lose, reorder or fail", _EV),
    "C16": _opt("the same run is repeated with display, clock jumps and failing evaluations and its log parsed", _EV),
    "C20": _opt("it perturbs one gradient entry of a known objective and says what each verdict has to be, and that nothing is left changed", _EV),
    "C21": _opt("it pairs every evaluation with the value and gradient of the user's objective at the point handed over", _EV),
    "C13": dict(technique="deterministic simulation: simulated worker pool whose tasks are delayed, reordered, lost or failed, against the sequential run",
                note="Seeded search. multiprocessing.Pool is replaced by a simulated pool that pickles tasks and results as the real one does and decides which worker runs what and when, which one raises or is lost, and the order of results. The parallel result is compared with running the same restarts one after another. Evidence, not proof; real operating-system processes are not part of the run.",
                rule="one evaluation = one seeded history of changes and parallel multi-restart calls; distinct by event-log digest; non-trivial = a pool was used",
                state_measure="hash of outcome, number of records and where the model was left",
                interleaving_measure="hash of the order in which workers took, finished and delivered tasks",
                assumptions=["up to 8 restarts on up to 4 workers", "a worker's task is atomic: tasks interleave, not their instructions"],
                stubs=["multiprocessing.Pool (dst/pool.py; pickles for real)", "the user's model classes", "clock", "np.random (seeded)"]),
    "C14": dict(technique="deterministic simulation: seeded histories with saves to a simulated disk (short, torn and failing writes, full disk, crash and restart) and loads compared with the reference model",
                note="Seeded search over histories on the real library. open() goes to a simulated disk which fails, tears or shortens writes and survives a crash; after loading, the model has to behave like the reference tree at the time of the save, over further random operations. Evidence, not proof; trusts pickle.",
                rule="one evaluation = one seeded history with saves, crashes and loads; distinct by event-log digest; non-trivial = a file was written or a fault fired",
                state_measure="hash of the reference model: tree shape, leaf sizes, constraint kinds and fixes, update flags after each look",
                interleaving_measure="hash of the sequence (operation, outcome, disk event)",
                assumptions=_HIER_ASSUME, stubs=_HIER_STUBS + ["the disk behind open() (in memory)"]),
    "C19": dict(technique="deterministic simulation: real threads under a seeded scheduler that pre-empts inside the library at chosen lines or bytecodes, registry checked after each step",
                note="Seeded search. Up to four threads request, hold, drop, copy, save, load and reject constraints and put them on and take them off models; one baton is handed over only where the seeded schedule says, at source lines or bytecodes of paramz; its locks block in the scheduler. After each step every constraint in use is compared with every other one. Evidence, not proof.",
                rule="one evaluation = one seeded set of 1-4 thread programs under one schedule; distinct by event-log digest; non-trivial = a pre-emption or rejection happened",
                state_measure="hash of the constraints on each scalar of a model after each change",
                interleaving_measure="hash of the sequence of hand-overs (from, to, where)",
                assumptions=["CPython semantics: one thread at a time, pre-emption between bytecodes of paramz only", "bounds from a pool of fifteen pairs, some one ulp apart"],
                stubs=["threading.Lock/RLock (scheduler-aware)", "thread scheduling", "garbage collection (only where the plan says; reference counting is real)"]),
    "C23": dict(technique="deterministic simulation: seeded fault schedules (infinite, undefined, raising evaluations) under SCG, every evaluation recorded and the result checked against the recording",
                note="Seeded search over landscapes, starts, tolerances and faulty evaluations, on SCG itself, the optimizer object and a model. Evidence, not proof.",
                rule="one evaluation = one seeded history of one to three SCG runs; distinct by event-log digest; non-trivial = a fault fired",
                state_measure="hash of landscape, status, iterations and evaluation counts",
                interleaving_measure="hash of the order of objective and gradient evaluations",
                assumptions=["one to six dimensions; convex quadratics with condition up to 100"], stubs=["the objective and its gradient (user code)"]),
    "C24": dict(technique="deterministic simulation: real threads under a seeded scheduler that pre-empts inside the library at chosen lines or bytecodes, each thread's log compared with running alone",
                note="Seeded search. Two to four threads run programs on models of their own (build, constrain, write, observe, cache, copy, pickle, print, optimize, fail); everything each observes is compared with the same program run alone in the same process. Evidence, not proof.",
                rule="one evaluation = one seeded set of 2-4 thread programs under one schedule; distinct by event-log digest; non-trivial = a pre-emption happened",
                state_measure="hash of what each thread observed last and how much",
                interleaving_measure="hash of the sequence of hand-overs (from, to, where)",
                assumptions=["CPython semantics: one thread at a time, pre-emption between lines or bytecodes of paramz only", "threads do not use the shared numpy random state"],
                stubs=["threading.Lock/RLock (scheduler-aware)", "thread scheduling", "clock", "stdout (one per thread)", "the user's model classes"]),
    "C27": dict(_hier("the arrays found in the file after each save that returned"), stubs=_HIER_STUBS + ["h5py and the disk under it (dst/h5stub.py): opening, creating, writing and closing can fail or be interrupted"]),
    "C28": dict(_opt("it repeats each run with climin's minimiser alone on the gradients that were handed out, and recomputes the objective at the reported point", _EV),
                assumptions=["climin is represented by a stand-in with its interface and update rules (dst/climin_stub.py)", "models of up to 4 nodes and 12 scalars, up to 60 iterations"]),
    "C26": _hier("text and HTML of nodes, leaves, slices and selections parsed and compared with names, values, shapes, constraints and details"),
    "C29": dict(technique="deterministic simulation: seeded histories on the shipped regression models with failing basis functions, recomputed by formula",
                note="Seeded search. Up to four models (ridge or lasso, polynomial or a user's basis that raises at chosen evaluations) go through up to 60 changes of weights, data, constraints, caches, optimizations and copies; objective, gradient, predictions and optima are recomputed by formula. Evidence, not proof; trusts numpy, scipy and the formula.",
                rule="one evaluation = one seeded history of 4-60 operations; distinct by event-log digest; non-trivial = it ran more than two operations",
                state_measure="hash of which weights are fixed and bounded, whether an update is owed, number of models and outcome after each operation",
                interleaving_measure="hash of the sequence (operation, outcome, values)",
                assumptions=["up to 6 data points, 3 inputs, degree 3", "the optimum is compared for converged quasi-Newton runs on free ridge models only"],
                stubs=["the user's basis function", "the clock", "np.random (seeded)", "garbage collection (when told)"]),
})
