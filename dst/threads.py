"""Threads with models of their own (C24) and threads asking for constraints (C19), interleaved inside the library."""
import copy, gc, pickle, sys
import numpy as np
from .core import Violation, require, same, fl, InjectedFault
from . import seams, sched, refmodel as R

CONS = [["Logexp"], ["NegativeLogexp"], ["Exponent"], ["NegativeExponent"], ["Square"], ["Logistic", 0.0, 1.0], ["Logistic", -2.0, 5.0], ["Logistic", 0.0, 2.0], ["Logistic", -1.0, 1.0]]


def schedule(rng, n, depth, long=0):
    """many short slices, few well separated switches, or (long: the points of a whole run) either of them spread over it"""
    short = lambda k: [[int(rng.choice([0, 1, 2, 3, 5, 8, 20, 60]) * rng.uniform(0.5, 1.5)), rng.randrange(8)] for _ in range(k)]
    few = lambda k, d: [[int(rng.expovariate(1.0 / d)), rng.randrange(8)] for _ in range(k)]
    u = rng.random()
    if long and u < 0.6:
        if u < 0.2:
            return few(rng.choice([1, 2, 3, 6, 12, 30]), rng.choice([0.02, 0.1, 0.3]) * long)
        if u < 0.4:
            return few(rng.choice([100, 300, 600]), rng.choice([30, 100, 300]))
        return [[int(rng.random() * long), 0]] + short(rng.choice([80, 300, 600]))
    return short(rng.choice([20, 80, 300])) if rng.random() < 0.5 else few(rng.choice([1, 2, 3, 6, 12]), depth)


FILES = dict(transformations=4, caching=3, observable=2, lists_and_dicts=2, index_operations=2, model=2, constrainable=1, indexable=1, parameter_core=1, optimization=1, verbose_optimization=1,
             scg=1, parameterized=1, param=1, observable_array=1, parentable=1, pickleable=1, updateable=1, nameable=1, gradcheckable=1)


FOCUS = dict(index_operations=["names", "constrain", "unconstrain", "names"], transformations=["constrain", "setopt", "optimize", "randomize", "grad"], caching=["array", "change", "cacher", "cached", "cache_switch"], observable=["array", "change", "write", "copy", "cached"],
             optimization=["optimize", "fail", "constrain"], model=["optimize", "fail", "setopt", "grad", "constrain"], verbose_optimization=["optimize", "print"], scg=["optimize"])


def hot(rng):
    """many switches inside one file of the library, or inside a few of its functions"""
    u = rng.random()
    if u < 0.3:
        return None
    n, gap = rng.choice([10, 100, 400]), rng.choice([1, 1, 3, 10])
    lead = int(rng.expovariate(1.0 / rng.choice([10, 300]))) if rng.random() < 0.5 else 0
    slices = [[lead if i == 0 else int(rng.random() * gap * 2), rng.randrange(8)] for i in range(n)]
    if u < 0.8:
        names = sorted(FILES)
        return ["file", rng.choices(names, [FILES[k] for k in names])[0] + ".py", 0, slices]
    m = rng.choice([4, 16, 48])
    return ["function", m, rng.randrange(m), slices]


class Log(object):
    def __init__(self, owner):
        self.owner, self.lines = owner, []

    def add(self, *a):
        self.lines.append(" ".join(fl(x) if isinstance(x, (np.ndarray, float)) else str(x) for x in a))


RANDOM = ["uniform", "normal", "choice", "rand", "randn", "randint", "random", "random_sample", "permutation", "shuffle", "standard_normal", "exponential"]


class Randomness(object):
    """The global generator of numpy, one stream for every thread: what a thread draws does not depend on the others."""
    def __init__(self):
        self.streams, self.keep = {}, {}

    def stream(self):
        sc = seams.SCHED[0]
        t = sc.me() if sc is not None else None
        k = None if t is None else t.idx
        if k not in self.streams:
            self.streams[k] = np.random.RandomState(20261120)
        return self.streams[k]

    def install(self):
        for n in RANDOM:
            self.keep[n] = getattr(np.random, n)
            setattr(np.random, n, lambda *a, _n=n, **k: getattr(self.stream(), _n)(*a, **k))

    def uninstall(self):
        for n, f in self.keep.items():
            setattr(np.random, n, f)


class Program(object):
    """What one thread does with models of its own; everything it sees goes to its log."""
    def __init__(self, ops, out):
        import paramz
        from . import thzoo
        self.Z, self.paramz = thzoo, paramz
        self.ops, self.log, self.out = ops, Log(self), out
        self.models, self.arrays, self.cachers, self.seen = [], [], [], []

    def run(self):
        for o in self.ops:
            try:
                getattr(self, "op_" + o["op"])(o)
            except (sched.Abort, Violation):
                raise
            except Exception as e:
                self.log.add(o["op"], "raised", type(e).__name__, str(e)[:80])
                if not o.get("may_raise"):
                    import traceback
                    self.log.add(traceback.format_exc()[-600:])

    def m(self, o):
        return self.models[o["m"] % len(self.models)] if self.models else None

    def leaf(self, o):
        m = self.m(o)
        if m is None:
            return None
        ls = [l for l in m.flattened_parameters] if hasattr(m, "flattened_parameters") else []
        return ls[o["l"] % len(ls)] if ls else None

    def state(self, m, what):
        cons = sorted((type(c).__name__, str(c), [int(i) for i in idx]) for c, idx in m.constraints.items())
        self.log.add(what, np.array(m.param_array), cons, [str(q) for q in m.parameter_names_flat()], bool(m.update_model()))
        self.log.add("  derived", float(m.derived), "changes", m.nchanged)

    def op_build(self, o):
        Z = self.Z
        m = Z.TModel("m%d" % len(self.models), len(self.models))
        r = np.random.RandomState(o["seed"])
        node = Z.TNode("sub")
        for i in range(o["n"]):
            p = self.paramz.Param("p" if i % 2 else "q%d" % i, np.round(r.uniform(0.1, 0.9, 1 + i % 3), 3))
            (node if i % 2 else m).link_parameter(p)
        m.link_parameter(node)
        self.models.append(m)
        self.state(m, "build")

    def op_constrain(self, o):
        l = self.leaf(o)
        if l is not None:
            k = o["key"]
            if k[0] == "Logistic" and o["l"] % 2:
                l.constrain_bounded(k[1], k[2])
            else:
                l.constrain(getattr(self.Z.T, k[0])(*k[1:]))
            self.state(self.m(o), "constrain")

    def op_unconstrain(self, o):
        l = self.leaf(o)
        if l is not None:
            k = o["key"]
            if k[0] == "Logistic":
                l.unconstrain_bounded(k[1], k[2])
            else:
                l.unconstrain(getattr(self.Z.T, k[0])())
            self.state(self.m(o), "unconstrain")

    def op_fix(self, o):
        l = self.leaf(o)
        if l is not None:
            l.fix() if o["seed"] % 2 else l.unfix()
            self.state(self.m(o), "fix")

    def op_write(self, o):
        l = self.leaf(o)
        if l is not None:
            l[...] = np.round(np.random.RandomState(o["seed"]).uniform(0.1, 0.9, l.shape), 3)
            self.state(self.m(o), "write")

    def op_setopt(self, o):
        m = self.m(o)
        if m is not None:
            m.optimizer_array = np.random.RandomState(o["seed"]).uniform(-2, 2, m.optimizer_array.size)
            self.state(m, "setopt")
            self.log.add("opt", np.array(m.optimizer_array))

    def op_randomize(self, o):
        m = self.m(o)
        if m is not None:
            r = np.random.RandomState(o["seed"])
            m.randomize(rand_gen=lambda size: r.normal(size=size))
            self.state(m, "randomize")

    def op_copy(self, o):
        m = self.m(o)
        if m is not None and len(self.models) < 5:
            self.models.append(m.copy())
            self.state(self.models[-1], "copy")

    def op_pickle(self, o):
        m = self.m(o)
        if m is not None and len(self.models) < 5:
            self.models.append(pickle.loads(pickle.dumps(m, o["seed"] % 6)))
            self.state(self.models[-1], "load")

    def op_names(self, o):
        m = self.m(o)
        if m is not None:
            i = np.arange(o["seed"] % 2, m.size)
            self.log.add("by index", sorted((str(c), [int(q) for q in ix]) for c, ix in m.constraints.properties_dict_for(i).items()) if i.size else None)
            self.log.add("names", m.parameter_names(), m.grep_param_names(".*p") and [q.name for q in m.grep_param_names(".*p")])

    def op_print(self, o):
        m = self.m(o)
        if m is not None:
            self.log.add("print", str(m) if o["seed"] % 2 else m._repr_html_())

    def op_grad(self, o):
        m = self.m(o)
        if m is not None:
            self.log.add("checkgrad", bool(m.checkgrad(verbose=bool(o["seed"] % 2))))
            self.state(m, "checkgrad")

    def op_optimize(self, o):
        m = self.m(o)
        if m is not None:
            s = o["seed"] % 4
            if s == 0:
                r = m.optimize(optimizer=self.Z.TScript(o["seed"] // 4), messages=o["l"] % 2 == 0)
            else:
                r = m.optimize(["lbfgsb", "scg", "simplex"][s - 1], max_iters=3, messages=o["l"] % 2 == 0)
            self.state(m, "optimize")
            if r is not None:
                self.log.add("run", np.array(r.x_opt), float(r.f_opt), r.funct_eval, r.status, len(m.optimization_runs), "seen", len(m.seen))

    def op_fail(self, o):
        """evaluations that fail: up to ten in a row are absorbed"""
        m = self.m(o)
        if m is not None:
            m.fail = o["seed"] % 13
            try:
                m.optimize(optimizer=self.Z.TScript(o["seed"] // 13, n=14))
                self.log.add("fail", "absorbed", o["seed"] % 13)
            except ValueError as e:
                self.log.add("fail", "raised", o["seed"] % 13, str(e))
            m.fail = 0
            m.optimize(optimizer=self.Z.TScript(1, n=1))
            self.state(m, "fail")

    def op_array(self, o):
        from paramz import ObsAr
        a = ObsAr(np.round(np.random.RandomState(o["seed"]).uniform(0, 1, 3), 3))
        self.arrays.append(a)
        me = self
        class W(object):
            def cb(self, who, which=None):
                me.log.add("  told", [i for i, x in enumerate(me.arrays) if x is who])
        w = W()
        self.seen.append(w)
        a.add_observer(w, w.cb, o["l"] % 3)

    def op_change(self, o):
        if self.arrays:
            self.arrays[o["l"] % len(self.arrays)][o["seed"] % 3] = round((o["seed"] % 100) / 50., 3)

    def op_cacher(self, o):
        from paramz.caching import Cacher
        me = self
        def fn(x, y=None, k=0):
            me.log.add("  computing", float(np.asarray(x).sum()))
            return float(np.asarray(x).sum()) + k
        self.cachers.append(Cacher(fn, limit=1 + o["l"] % 2))

    def op_cached(self, o):
        if self.arrays:
            a = self.arrays[o["m"] % len(self.arrays)]
            if self.cachers:
                self.log.add("cached", float(self.cachers[o["l"] % len(self.cachers)](a, k=o["seed"] % 2)))
            m = self.m(o)
            if m is not None:
                self.log.add("method", m.cached(a), m.ncomputed)

    def op_cache_switch(self, o):
        m = self.m(o)
        if m is not None:
            [m.cache.disable_caching, m.cache.enable_caching, m.cache.reset][o["seed"] % 3]()

    def op_unlink(self, o):
        l = self.leaf(o)
        if l is not None and l.has_parent():
            l._parent_.unlink_parameter(l)
            self.state(self.m(o), "unlink")

    def op_reject(self, o):
        l = self.leaf(o)
        if l is not None:
            try:
                l.constrain_bounded(2.0, 1.0)
                self.log.add("reject", "accepted")
            except Exception as e:
                self.log.add("reject", type(e).__name__)

    def op_gc(self, o):
        gc.collect()

    def op_drop(self, o):
        if len(self.models) > 1:
            del self.models[o["m"] % len(self.models)]


OPS = dict(build=4, constrain=8, unconstrain=4, fix=3, write=5, setopt=4, randomize=1, copy=3, pickle=2, names=1, print=1, grad=1, optimize=4, fail=5, array=2, change=3, cacher=1,
           cached=4, cache_switch=1, unlink=1, reject=1, gc=1, drop=1)


class ThreadScenario(object):
    shrink_lists = (("sched",), ("hot", 3), ("progs", 0), ("progs", 1), ("progs", 2), ("progs", 3))

    def __init__(self, prop="C24"):
        self.prop = prop

    def prepare(self):
        from . import thzoo
        import random
        r = random.Random(5)
        # lazily imported modules are imported before any thread runs
        for op in OPS:
            p = Program([dict(op="build", seed=1, n=3, m=0, l=0), dict(op="array", seed=1, m=0, l=0), dict(op="cacher", seed=1, m=0, l=0)] +
                        [dict(op=op, m=0, l=k, seed=k, key=CONS[5], n=2) for k in range(6)], None)
            keep = sys.stdout
            sys.stdout = sched.Stdout(lambda: None)
            try:
                p.run()
            finally:
                sys.stdout = keep

    def generate(self, rng, tier):
        n = rng.choice([2, 2, 3, 4])
        progs = []
        alike = rng.random() < 0.4
        names, ws = sorted(OPS), [OPS[k] for k in sorted(OPS)]
        where = hot(rng)
        focus = rng.sample(names, 5) if rng.random() < 0.4 else names
        if where and where[0] == "file" and rng.random() < 0.6:
            focus = FOCUS.get(where[1][:-3], focus)
        fw = [OPS[k] for k in focus]
        keys = CONS if rng.random() < 0.6 else rng.sample(CONS, rng.choice([1, 2]))
        for _ in range(n):
            ops = [dict(op="build", n=rng.randint(1, 4))]
            if rng.random() < 0.5:
                ops.append(dict(op="array"))
                ops.append(dict(op="cacher"))
            for _ in range(rng.randint(2, 14 if tier == "thorough" else 9)):
                ops.append(dict(op=rng.choices(focus, fw)[0], n=rng.randint(1, 4)))
            for o in ops:
                o.update(m=rng.randrange(6), l=rng.randrange(6), seed=rng.randrange(1000))
                if o["op"] in ("constrain", "unconstrain"):
                    o["key"] = rng.choice(CONS[:3] + CONS[5:7] if keys is CONS and rng.random() < 0.5 else keys)
            progs.append(ops)
        if alike:
            progs = [copy.deepcopy(progs[0]) for _ in range(n)]
        ops = rng.random() < 0.3
        return dict(progs=progs, sched=schedule(rng, n, 3000 if ops else 600, 60000 if ops else 15000), opcodes=ops, hot=where, steps=[])

    def execute(self, plan, sim):
        seams.CLOCK.active = True
        seams.CLOCK.now = 1.0e9
        seams.CLOCK.on_read = None
        keep = sys.stdout
        seams.install_locks()       # locks the library makes from now on are ours too
        rnd = Randomness()
        rnd.install()
        try:
            alone = []
            for i, ops in enumerate(plan["progs"]):
                rnd.streams.clear()
                sys.stdout = out = sched.Stdout(lambda: None)
                p = Program(ops, out)
                p.run()
                alone.append((p.log.lines, "".join(out.buf.get(None, []))))
                for o in ops:
                    sim.op(o["op"])
            sim.ev("alone", [len(a[0]) for a in alone])
            s = sched.Sched(sim, plan["sched"], plan["opcodes"], plan.get("hot"))
            sys.stdout = out = sched.Stdout(lambda: seams.SCHED[0])
            progs = [Program(ops, out) for ops in plan["progs"]]
            sim.current = "threads"
            s.run([p.run for p in progs])
        finally:
            sys.stdout = keep
            rnd.uninstall()
            seams.uninstall_lock_names()
        sim.ev("points", s.points, "switches", s.switches)
        sim.probe("scheduling points", s.points)
        sim.checks += 1
        for i, p in enumerate(progs):
            a, b = alone[i][0], p.log.lines
            for j, (x, y) in enumerate(zip(a, b)):
                require(x == y, "threads:differs", lambda: "thread %d, log line %d: alone\n  %s\nwith others\n  %s" % (i, j, x[-700:], y[-700:]))
            require(len(a) == len(b), "threads:differs", lambda: "thread %d saw %d things, alone %d: %s" % (i, len(b), len(a), (a + b)[min(len(a), len(b)):][:1]))
            require(alone[i][1] == "".join(out.buf.get(i, [])), "threads:output", lambda: "thread %d printed something else than alone" % i)
            sim.state(i, len(b), b[-1][:200] if b else "")

    def cleanup(self):
        seams.CLOCK.active = False
        seams.SCHED[0] = None
