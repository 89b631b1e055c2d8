"""Parallel restarts (C13) on a simulated worker pool: the scheduler decides when each task is pickled, on which worker it
runs, when it completes, and what fails."""
import contextlib, io, pickle, random, re
import multiprocessing.pool
import numpy as np
from .core import InjectedFault, InjectedInterrupt, Violation, require, same, close, fl
from . import runs, seams
from .runs import World, Ctl, OptScenario, TOL


class SimResult(object):
    def __init__(self, pool, k):
        self.pool, self.k = pool, k
        self.done, self.ok, self.value = False, None, None

    def ready(self):
        return self.done

    def successful(self):
        if not self.done:
            raise ValueError("not ready")
        return self.ok

    def wait(self, timeout=None):
        self.pool.env.wait(self)

    def get(self, timeout=None):
        self.pool.env.at_get(self)
        self.wait(timeout)
        if not self.done:
            raise multiprocessing.TimeoutError()
        if self.ok:
            return self.value
        raise self.value


class SimPool(object):
    def __init__(self, env, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.env, self.state, self.joined = env, "RUN", False
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.workers = [dict(busy=None, rng=np.random.get_state()) for _ in range(processes or env.cpus)]
        self.pending, self.jobs = [], []

    def _check(self):
        if self.state != "RUN":
            raise ValueError("Pool not running")

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        r = SimResult(self, len(self.env.tasks))
        r.cb, r.ecb = callback, error_callback
        self.env.submit(self, r, (func, args, kwds))
        return r

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        rs = [self.apply_async(func, (a,)) for a in iterable]
        return _Many(rs)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Many([self.apply_async(func, tuple(a)) for a in iterable])

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable).get()

    def imap(self, func, iterable, chunksize=1):
        rs = [self.apply_async(func, (a,)) for a in iterable]
        return iter(r.get() for r in rs)

    def imap_unordered(self, func, iterable, chunksize=1):
        rs = [self.apply_async(func, (a,)) for a in iterable]
        def it():
            left = list(rs)
            while left:
                self.env.progress_any(left)
                r = next(q for q in self.env.completed if q in left)
                left.remove(r)
                yield r.get()
        return it()

    def close(self):
        if self.state == "RUN":
            self.state = "CLOSE"
        self.env.note("close")

    def terminate(self):
        self.state = "TERMINATE"
        self.pending = []
        for w in self.workers:
            w["busy"] = None
        self.env.note("terminate")

    def join(self):
        if self.state == "RUN":
            raise ValueError("Pool is still running")
        if self.state == "CLOSE":
            while self.env.busy(self):
                self.env.event(self)
        self.joined = True
        self.env.note("join")

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()


class _Many(object):
    def __init__(self, rs):
        self.rs = rs

    def get(self, timeout=None):
        return [r.get() for r in self.rs]

    def wait(self, timeout=None):
        for r in self.rs:
            r.wait()

    def ready(self):
        return all(r.ready() for r in self.rs)


class PoolEnv(object):
    """The world of worker processes of one call."""
    def __init__(self, scn, W, st, sched, caller):
        self.scn, self.W, self.st, self.sim = scn, W, st, W.sim
        self.rng = random.Random(sched)
        self.cpus = st.get("cpus", 4)
        self.tasks, self.pools, self.completed, self.order = [], [], [], []
        self.outcome = {}           # job -> ("ok", x, f) | ("failed", type name)
        self.starts, self.values = {}, {}
        self.caller = caller
        self.violation = None
        self.gets = 0

    def flag(self, label, msg):
        if self.violation is None:
            self.violation = Violation(label, msg)

    def note(self, what):
        self.sim.ev("   pool", what)
        self.unchanged(what)

    def make(self, *a, **k):
        self.note("create")
        if self.st.get("create_fails"):
            self.sim.fault("pool creation fails")
            self.created = OSError(11, "Resource temporarily unavailable")
            raise self.created
        p = SimPool(self, *a, **k)
        self.pools.append(p)
        return p

    def unchanged(self, when):
        v = self.W.values()
        if not same(v, self.W.base):
            self.flag("pool:caller-changed", "at %s the caller's model went from %r to %r" % (when, self.W.base, v))

    def submit(self, pool, r, task):
        self.tasks.append(task)
        pool.jobs.append(r)
        pool.pending.append((r, task))
        m = self.find_model(task)
        self.starts[r.k] = None if m is None else np.array(m.optimizer_array, dtype=float)
        self.values[r.k] = None if m is None else np.array(m.param_array, dtype=float).ravel()
        self.sim.ev("   submit", r.k)
        self.unchanged("submit")
        while self.rng.random() < 0.3 and self.busy(pool):
            self.event(pool)

    def find_model(self, x, depth=0):
        from paramz import Model
        if isinstance(x, Model):
            return x
        if depth < 4 and isinstance(x, (tuple, list)):
            for y in x:
                m = self.find_model(y, depth + 1)
                if m is not None:
                    return m
        return None

    def busy(self, pool):
        return bool(pool.pending) or any(w["busy"] is not None for w in pool.workers)

    def event(self, pool):
        """one thing happens: a free worker takes the next task, or a busy one completes"""
        acts = []
        free = [i for i, w in enumerate(pool.workers) if w["busy"] is None]
        if pool.pending and free:
            acts.append(("start", self.rng.choice(free)))
        acts += [("finish", i) for i, w in enumerate(pool.workers) if w["busy"] is not None]
        act, i = self.rng.choice(acts)
        self.sim.choice(act, i)
        w = pool.workers[i]
        if act == "start":
            w["busy"] = pool.pending.pop(0)
            self.sim.ev("   worker", i, "takes job", w["busy"][0].k)
            # the task is pickled by the pool's own thread at some time after it was handed over
            r, task = w["busy"]
            try:
                w["blob"] = pickle.dumps(task)
            except Exception as e:
                self.sim.fault("task cannot be pickled")
                w["blob"] = None
                w["busy"] = None
                self.finish(r, False, e)
            return
        r, task = w["busy"]
        w["busy"] = None
        self.run(w, i, r)

    def run(self, w, i, r):
        Z = self.W.Z
        st, now, keep = np.random.get_state(), seams.CLOCK.now, Z.CTL[0]
        np.random.set_state(w["rng"])
        ctl = Ctl(self.W, None, [f for f in self.st["faults"] if f["exc"] != "interrupt"], self.st["clock"], judge=False)
        ctl.run = r.k - 1
        try:
            Z.CTL[0] = None
            func, args, kwds = pickle.loads(w["blob"])
            m = self.find_model((args, kwds))
            ctl.m = m
            Z.CTL[0] = ctl
            ok, val = True, None
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    val = func(*args, **kwds)
                except Exception as e:
                    ok, val = False, e
            Z.CTL[0] = None
            if self.st.get("lost") == r.k:
                self.sim.fault("result cannot be sent back")
                ok, val = False, multiprocessing.pool.MaybeEncodingError("simulated", "result")
            val = pickle.loads(pickle.dumps(val))
        finally:
            Z.CTL[0] = keep
            w["rng"] = np.random.get_state()
            np.random.set_state(st)
            seams.CLOCK.now = now
        if ctl.log and ctl.log[0][0] == "begin" and self.starts[r.k] is not None and not same(ctl.log[0][1], self.starts[r.k]):
            self.flag("pool:other-start", "job %d was submitted at %r and ran from %r" % (r.k, self.starts[r.k], ctl.log[0][1]))
        self.sim.ev("   worker", i, "completes job", r.k, "ok" if ok else type(val).__name__)
        self.finish(r, ok, val)

    def finish(self, r, ok, val):
        r.done, r.ok, r.value = True, ok, val
        self.completed.append(r)
        self.order.append(r.k)
        self.outcome[r.k] = ("ok", np.array(val.x_opt, dtype=float), val.f_opt, val) if ok and val is not None else ("failed", val)
        for cb in ((r.cb,) if ok else (r.ecb,)):
            if cb is not None:
                cb(val)

    def at_get(self, r):
        self.gets += 1
        self.unchanged("get")
        if self.st.get("interrupt") is not None and self.gets - 1 == self.st["interrupt"]:
            self.sim.fault("interrupt while waiting")
            self.interrupted = InjectedInterrupt("waiting for job %d" % r.k)
            raise self.interrupted

    def wait(self, r):
        pool = r.pool
        if r.done:
            return
        if pool.state == "TERMINATE":
            raise InjectedFault("waiting for a job of a terminated pool: it would never end")
        while not r.done:
            self.event(pool)

    def progress_any(self, left):
        while not any(q.done for q in left):
            self.event(left[0].pool)


class PoolScenario(OptScenario):
    def __init__(self, prop="C13"):
        self.prop, self.groups = prop, ("pool", "restart", "end")

    def generate(self, rng, tier):
        base = OptScenario.generate(self, rng, tier)
        cfg = base["cfg"]
        if rng.random() < 0.25:
            cfg["nan"] = [rng.choice([3, 5]), rng.choice(["nan", "inf"])]
        nn = len(cfg["nodes"])
        sel = lambda: None
        steps = []
        for _ in range(rng.randint(1, 4 if tier == "thorough" else 2)):
            for _ in range(rng.choice([0, 0, 1, 2])):
                steps.append(self.gen_change(rng, sel))
            n = rng.choice([0, 1, 2, 3, 4, 5, 7])
            o = self.gen_opt(rng)
            if o["k"] == "script":
                o["script"] = o["script"][:4]
            faults = []
            for _ in range(rng.choice([0, 0, 1, 2])):
                exc = rng.choice([e for e in TOL] + ["fault", "key", "arith", "key", "fault"])
                if rng.random() < 0.2:
                    faults.append(dict(where="pc:root", when=["n", rng.randint(1, 12)], exc=rng.choice([exc, "interrupt"])))
                else:
                    a = rng.randrange(4)
                    faults.append(dict(where=rng.choice(["obj", "grad", "pc:root"]), when=["eval", a, a + rng.choice([0, 3, 15]), rng.choice([None, rng.randrange(7), rng.randrange(7)])], exc=exc))
            s = dict(op="parallel", n=n, opt=o, robust=rng.random() < 0.65, verbose=rng.random() < 0.8, faults=faults, processes=rng.choice([None, 1, 2, 3, 8]), cpus=rng.choice([1, 2, 4]),
                     sched=[rng.randrange(10 ** 6), rng.randrange(10 ** 6)], clock=[0, 0.3])
            u = rng.random()
            if u < 0.08:
                s["interrupt"] = rng.randrange(max(1, n))
            elif u < 0.14:
                s["lost"] = rng.randrange(max(1, n))
            elif u < 0.18:
                s["create_fails"] = True
            elif u < 0.24:
                s["unpicklable"] = True
            steps.append(s)
        return dict(cfg=cfg, steps=steps)

    def execute(self, plan, sim):
        cfg = plan["cfg"]
        if not cfg["leaves"]:
            return
        self.sim = sim
        A, B = World(sim, cfg), World(sim, cfg)
        self.insts = {}
        seams.CLOCK.active = True
        seams.CLOCK.now = 1.0e9
        rng_state = np.random.get_state()
        for n, st in enumerate(plan["steps"]):
            sim.current = st["op"]
            sim.ev("step", n, st["op"])
            if st["op"] != "parallel":
                A.change(st)
                B.change(st)
                continue
            np.random.set_state(rng_state)
            ra = self.parallel(A, st, st["sched"][0], "A")
            after = np.random.get_state()
            np.random.set_state(rng_state)
            rb = self.parallel(B, st, st["sched"][1], "B")
            rng_state = after
            # the schedule makes no difference
            require(type(ra) is type(rb), "pool:schedule", lambda: "one schedule ends with %r, another with %r" % (ra, rb))
            x, y = A.m.optimization_runs, B.m.optimization_runs
            require(len(x) == len(y) and all(same(r.x_opt, s.x_opt) and same(r.f_opt, s.f_opt) for r, s in zip(x, y)), "pool:schedule", lambda: "runs on record depend on the schedule: %r / %r" % ([r.x_opt for r in x], [r.x_opt for r in y]))
            require(same(A.values(), B.values()), "pool:schedule", lambda: "the model ends at %r under one schedule, at %r under another" % (A.values(), B.values()))
            self.old_records(A)
            sim.state(st["n"], st["robust"], len(A.snapshot_records), type(ra).__name__)

    def cleanup(self):
        seams.POOL[0] = None
        OptScenario.cleanup(self)

    def parallel(self, W, st, sched, which):
        m = W.m
        W.base = W.values()
        sim = W.sim
        sim.op("parallel restarts")
        n, n0 = st["n"], len(m.optimization_runs)
        kw = self.make_opt(W, st["opt"], which)
        free = int((~W.fixed).sum())
        if st.get("unpicklable"):
            m.__dict__["junk"] = lambda: None
        ctl = Ctl(W, m, [f for f in st["faults"] if f["when"][0] == "n"], st["clock"], judge=False)
        env = PoolEnv(self, W, st, sched, m)
        seams.POOL[0] = env.make
        out = io.StringIO()
        struct = W.structure()
        try:
            ret, exc = self.call(W, ctl, out, lambda: m.optimize_restarts(num_restarts=n, robust=st["robust"], verbose=st["verbose"], parallel=True, num_processes=st["processes"], **kw))
        finally:
            seams.POOL[0] = None
            m.__dict__.pop("junk", None)
        sim.ev("  parallel", "raised " + type(exc).__name__ if exc is not None else "returned", "completion order", env.order)
        sim.checks += 1
        if env.violation is not None and not (exc is None and env.violation.label == "pool:caller-changed" and env.violation.msg.startswith("at terminate") and False):
            raise env.violation
        for p in env.pools:
            require(p.state == "TERMINATE" or (p.state == "CLOSE" and p.joined), "pool:left-open", lambda: "the pool is left in state %s%s" % (p.state, " after " + repr(exc) if exc is not None else ""))
        v = W.values()
        require(same(v[W.fixed], W.base[W.fixed]), "pool:fixed", "a fixed value was changed")
        require(W.structure() == struct, "pool:structure", "constraints or names changed")
        runs_ = m.optimization_runs[n0:]
        if free == 0:
            require(exc is None and not runs_ and same(v, W.base), "pool:nothing", "nothing was free")
            return exc
        lines = []
        for q in re.split(r"[\r\n]+", out.getvalue()):
            if "ptimization restart" in q:
                a, b = self.LINE.match(q.strip()), self.WARN.match(q.strip())
                require(a or b, "pool:line", lambda: "malformed line %r" % q)
                lines.append((int((a or b).group(1)), int((a or b).group(2)), a is not None))
        own = [q for q in ctl.allfired]
        stop = None
        if st.get("create_fails"):
            stop = env.created
        elif own and own[0]["exc"] is exc:
            stop = exc
        elif getattr(env, "interrupted", None) is not None:
            stop = env.interrupted
        if stop is not None:
            require(exc is stop, "pool:lost-exception", lambda: "%r was to come through, optimize_restarts %s" % (stop, "raised %r" % exc if exc is not None else "returned"))
        good = [k for k in sorted(env.outcome) if env.outcome[k][0] == "ok"]
        if stop is None:
            first_bad = next((k for k in range(n) if env.outcome.get(k, ("missing",))[0] != "ok"), None)
            if first_bad is not None and not st["robust"]:
                o = env.outcome.get(first_bad)
                require(o is not None and exc is not None and type(exc) is type(o[1]) and exc.args == o[1].args, "pool:not-raised", lambda: "job %d failed with %r, optimize_restarts %s" % (first_bad, o, "raised %r" % exc if exc is not None else "returned"))
                good = [k for k in good if k < first_bad]
            else:
                if exc is not None:
                    raise exc
                require(len(env.outcome) == n, "pool:count", lambda: "%d jobs for %d restarts" % (len(env.outcome), n))
                if st["verbose"]:
                    require([q[0] for q in lines] == list(range(1, n + 1)) and all(q[2] == (env.outcome[q[0] - 1][0] == "ok") for q in lines), "pool:lines", lambda: "lines %r for %r" % (lines, [env.outcome[k][0] for k in sorted(env.outcome)]))
            require(len(runs_) == len(good), "pool:records", lambda: "%d runs recorded, jobs %r finished" % (len(runs_), good))
        for r, k in zip(runs_, good):
            require(same(r.x_opt, env.outcome[k][1]) and same(r.f_opt, env.outcome[k][2]), "pool:order", lambda: "record %r is not the result %r of job %d" % (r.x_opt, env.outcome[k][1], k))
        if exc is None:
            fs = np.array([float(r.f_opt) for r in runs_])
            if not runs_:
                require(close(v, W.base, 1e-7, 1e-7), "pool:not-restored", lambda: "all failed, the model went from %r to %r" % (W.base, v))
            elif not np.isnan(fs).all():
                err = None
                for r in [r for r, f in zip(runs_, fs) if f == np.nanmin(fs)]:
                    try:
                        self.at_point(W, r, "restart", runs._NoLog(st["faults"]))
                        err = None
                        break
                    except Violation as e:
                        err = e
                if err is not None:
                    raise err
        elif stop is None or not any(q["exc"] is exc for q in own):
            require(same(v, W.base), "pool:caller-changed", lambda: "optimize_restarts raised %r, the caller's model went from %r to %r" % (exc, W.base, v))
        if n and sorted(env.values) == list(range(n)) and all(x is not None for x in env.values.values()):
            here = [k for k in sorted(env.values) if same(env.values[k], W.base)]
            require(len(here) == 1, "pool:starts", lambda: "jobs %r start from the model's values %r: %r" % (here, W.base, env.values))
        for k, s in env.starts.items():
            sim.probe("jobs")
        self.add_records(W, n0)
        sim.probe("completion in order" if env.order == sorted(env.order) else "completion out of order")
        return exc
