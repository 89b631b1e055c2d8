"""Scaled conjugate gradients against objectives that misbehave on schedule (C23)."""
import numpy as np
from .core import require, InjectedFault, fl


def landscape(cfg):
    """value and slope of the objective; optargs are added to the value"""
    r = np.random.RandomState(cfg["seed"])
    n, kind = cfg["n"], cfg["kind"]
    A = r.normal(size=(n, n))
    q, _ = np.linalg.qr(A)
    w = np.exp(r.uniform(0, np.log(cfg["cond"]), n))
    H = (q * w).dot(q.T)
    H = (H + H.T) / 2 * cfg["scale"]
    c = r.uniform(-2, 2, n)
    if kind == "quad":
        return (lambda x: 0.5 * (x - c).dot(H).dot(x - c) + cfg["shift"]), (lambda x: H.dot(x - c)), c
    if kind == "indef":
        S = (q * np.where(np.arange(n) % 2, w, -w)).dot(q.T)
        return (lambda x: 0.5 * x.dot(S).dot(x) + 0.01 * (x ** 4).sum()), (lambda x: S.dot(x) + 0.04 * x ** 3), None
    if kind == "quartic":
        return (lambda x: ((x - c) ** 4).sum()), (lambda x: 4 * (x - c) ** 3), None
    if kind == "waves":
        return (lambda x: np.sin(3 * x).sum() + 0.05 * x.dot(x)), (lambda x: 3 * np.cos(3 * x) + 0.1 * x), None
    if kind == "abs":
        return (lambda x: np.abs(x - c).sum()), (lambda x: np.sign(x - c)), None
    if kind == "linear":
        return (lambda x: c.dot(x)), (lambda x: c.copy()), None
    if kind == "flat":
        return (lambda x: 1.5), (lambda x: np.zeros(n)), None
    if kind == "stairs":
        return (lambda x: np.floor(2 * np.abs(x)).sum()), (lambda x: 2 * np.sign(x)), None
    if kind == "log":
        return (lambda x: -np.log(x - c + 3).sum() + x.dot(x)), (lambda x: -1 / (x - c + 3) + 2 * x), None
    if kind == "rosen":
        return ((lambda x: (1 - x[0]) ** 2 + 5 * ((x[1:] - x[:-1] ** 2) ** 2).sum()),
                (lambda x: np.array([-2 * (1 - x[0])] + [0.] * (n - 1)) + np.concatenate([-20 * x[:-1] * (x[1:] - x[:-1] ** 2), [0.]]) + np.concatenate([[0.], 10 * (x[1:] - x[:-1] ** 2)])), None)
    if kind == "wrong":        # the slope has nothing to do with the value
        return (lambda x: x.dot(x)), (lambda x: np.cos(x * 7 + c)), None
    if kind == "big":
        return (lambda x: 1e300 * (x - c).dot(x - c)), (lambda x: 2e300 * (x - c)), None
    raise KeyError(kind)


class Recorder(object):
    def __init__(self, sim, cfg, faults, run):
        self.sim, self.cfg, self.run = sim, cfg, run
        self.value, self.slope, self.best = landscape(cfg)
        self.faults = dict(((k, i), w) for r, k, i, w in faults if r == run)
        self.f, self.g = [], []
        self.buf = np.empty(cfg["n"]) if cfg["grad"] == "buffer" else None
        self.order = []

    def region(self, x):
        c = self.cfg["wall"]
        return c is not None and np.any(np.abs(x) > c)

    def fval(self, x, *a):
        x = np.array(x, dtype=float)
        i = len(self.f)
        w = self.faults.get(("f", i))
        with np.errstate(all="ignore"):
            v = float(self.value(x)) + sum(a)
        if self.region(x):
            w = w or self.cfg["wallval"]
            self.sim.probe("evaluated beyond the wall")
        if w is not None:
            self.sim.fault("objective " + w)
            if w == "raise":
                raise InjectedFault("objective %d" % i)
            v = dict(inf=np.inf, nan=np.nan, ninf=-np.inf, huge=1e308).get(w, v + 10)
        self.f.append((x, v))
        self.order.append("f")
        self.sim.ev("    f", i, x, v)
        return np.float64(v) if self.cfg["seed"] % 2 else v

    def gval(self, x, *a):
        x = np.array(x, dtype=float)
        i = len(self.g)
        w = self.faults.get(("g", i))
        with np.errstate(all="ignore"):
            g = np.array(self.slope(x), dtype=float)
        if w is not None:
            self.sim.fault("gradient " + w)
            if w == "raise":
                raise InjectedFault("gradient %d" % i)
            g[i % g.size] = dict(inf=np.inf, nan=np.nan, zero=0.0, huge=1e200).get(w, -g[i % g.size])
            if w == "zero":
                g[:] = 0
        if self.buf is not None:
            self.buf[:] = g
            out = self.buf
        else:
            out = g
        self.g.append((x, g.copy(), out))
        self.order.append("g")
        self.sim.ev("    g", i, x)
        return out

    def both(self, x, *a):
        return self.fval(x, *a), self.gval(x, *a)


class ScgScenario(object):
    shrink_lists = (("faults",),)

    def __init__(self, prop="C23"):
        self.prop = prop

    def generate(self, rng, tier):
        steps, faults = [], []
        for r in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([1, 2, 3, 4, 6])
            kind = rng.choice(["quad"] * 5 + ["indef", "quartic", "waves", "abs", "linear", "flat", "stairs", "log", "rosen", "wrong", "big"])
            o = dict(kind=kind, n=n, seed=rng.randrange(10 ** 6), cond=rng.choice([1, 3, 10, 100]), scale=rng.choice([1, 1, 0.1, 10]), shift=rng.choice([0, 0, 5, -3]),
                     mode=rng.choice(["direct", "direct", "opt", "model"]), start=rng.choice(["near", "far", "far", "min", "zero"]), maxiters=rng.choice([0, 1, 2, 3, 5, 10, 30, 100, 500]),
                     tol=rng.choice([None, None, "tight", "loose", "off"]), optargs=rng.choice([0, 0, 1, 2]), grad=rng.choice(["new", "new", "new", "buffer"]),
                     wall=None, wallval="inf", again=rng.random() < 0.3)
            clean = rng.random() < 0.4
            if rng.random() < 0.3:
                clean = True
                o.update(kind="quad", maxiters=rng.choice([100, 200, 500]), grad="new", tol=rng.choice([None, None, "tight", "off"]))
            if not clean:
                if rng.random() < 0.3:
                    o["wall"], o["wallval"] = rng.choice([0.5, 1, 2, 5]), rng.choice(["inf", "nan", "huge"])
                for _ in range(rng.choice([0, 1, 1, 2, 4, 8])):
                    faults.append([r, rng.choice(["f", "f", "f", "g"]), rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 15, 20, 40]) , None])
                    k = faults[-1]
                    k[3] = rng.choice(["inf", "nan", "nan", "ninf" if rng.random() < 0.1 else "inf", "up", "raise" if rng.random() < 0.3 else "nan"] if k[1] == "f" else ["inf", "nan", "zero", "flip", "huge", "raise" if rng.random() < 0.3 else "nan"])
                if rng.random() < 0.2:
                    what, step = rng.choice(["inf", "nan"]), rng.choice([2, 3, 5])
                    faults += [[r, "f", i, what] for i in range(rng.choice([0, 1]), 60, step)]
            steps.append(o)
        return dict(steps=steps, faults=faults)

    def tols(self, o):
        return {None: {}, "tight": dict(xtol=1e-14, ftol=1e-14, gtol=1e-14), "loose": dict(xtol=1e-2, ftol=1e-2, gtol=1e-1), "off": dict(xtol=0., ftol=0., gtol=0.)}[o["tol"]]

    def execute(self, plan, sim):
        from paramz.optimization.scg import SCG
        from paramz.optimization.optimization import opt_SCG
        keep = keeptol = None
        for i, o in enumerate(plan["steps"]):
            sim.current = i
            sim.op(o["mode"] + ":" + o["kind"])
            rec = Recorder(sim, o, plan["faults"], i)
            r = np.random.RandomState(o["seed"] + 1)
            x0 = {"near": r.uniform(-1, 1, o["n"]), "far": r.uniform(-20, 20, o["n"]), "zero": np.zeros(o["n"]),
                  "min": rec.best.copy() if rec.best is not None else np.ones(o["n"])}[o["start"]]
            before = x0.tobytes()
            tol = self.tols(o)
            res = exc = opt = None
            with np.errstate(all="ignore"):
                try:
                    if o["mode"] == "direct":
                        args = (1.0, 2.0)[:o["optargs"]]
                        res = SCG(rec.fval, rec.gval, x0, optargs=args, maxiters=o["maxiters"], **tol)
                    else:
                        opt = keep if keep is not None and o["again"] else opt_SCG(max_iters=o["maxiters"], **tol)
                        if opt is keep:
                            o = dict(o, maxiters=keep.max_iters, tol=keeptol)
                            sim.probe("optimizer object used again")
                        keep, keeptol = opt, o["tol"]
                        if o["mode"] == "model":
                            self.model(rec, opt, x0)
                        else:
                            opt.run(x0, f=rec.fval, fp=rec.gval, f_fp=rec.both)
                        res = opt.x_opt, opt.trace, opt.funct_eval, opt.status
                except InjectedFault as e:
                    exc = e
            sim.checks += 1
            require(x0.tobytes() == before, "scg:start changed", "the start it was given was modified")
            for x, g, out in rec.g:
                if rec.buf is None:
                    require(np.array_equal(g, out, equal_nan=True), "scg:gradient changed", lambda: "a gradient it was given was modified: %s to %s" % (fl(g), fl(out)))
            if rec.buf is not None and rec.g:
                require(np.array_equal(rec.g[-1][1], rec.buf, equal_nan=True), "scg:gradient changed", "the gradient array of the user was modified")
            if exc is not None:
                require(res is None or opt is not None, "scg:exception", "raised and returned")
                sim.ev("raised", str(exc))
                continue
            self.check(sim, o, rec, res, self.tols(o), opt, x0)

    def model(self, rec, opt, x0):
        from . import optzoo  # noqa: imports paramz
        from .thzoo import TModel
        from paramz import Param

        class M(TModel):
            def parameters_changed(s):
                pass

            def objective_function(s):
                return rec.fval(np.array(s.p))

            def objective_function_gradients(s):
                return rec.gval(np.array(s.p))
        m = M("scg", 0)
        m.link_parameter(Param("p", x0.copy()))
        m.p.gradient = 0
        run = m.optimize(opt, max_iters=3)
        require(run is opt or run is None or run is m.optimization_runs[-1], "scg:run", "the run is not on record")
        rec.left = np.array(m.p)

    def check(self, sim, o, rec, res, tol, opt, x0):
        x, flog, count, status = res
        flog = [float(v) for v in flog]
        nf, ng = len(rec.f), len(rec.g)
        iters = len(flog) - 1
        sim.ev("result", x, len(flog), count, status)
        sim.state(o["kind"], status, iters, nf, ng)
        sim.choice(tuple(rec.order))
        require(iters >= 0, "scg:log", "the log is empty")
        for a, b in zip(flog, flog[1:]):
            require(not b > a, "scg:increases", lambda: "the logged objective goes from %r to %r" % (a, b))
            require(np.isnan(a) or not np.isnan(b), "scg:increases", lambda: "the logged objective goes from %r to NaN" % a)
        require(iters <= o["maxiters"], "scg:iterations", lambda: "%d iterations, %d allowed" % (iters, o["maxiters"]))
        in_model = o["mode"] == "model"
        require(nf <= o["maxiters"] + 1 + in_model and ng <= 2 * o["maxiters"] + 1 + in_model, "scg:iterations", lambda: "%d and %d evaluations for %d iterations" % (nf, ng, o["maxiters"]))
        require(count == nf + ng, "scg:count", lambda: "reports %r evaluations, made %d + %d" % (count, nf, ng))
        xb = np.asarray(x, dtype=float)
        there = [v for y, v in rec.f if np.array_equal(y, xb)]
        require(there, "scg:point", lambda: "the returned point %s was never evaluated" % fl(xb))
        require(any(v == flog[-1] or (v != v and flog[-1] != flog[-1]) for v in there), "scg:final", lambda: "the log ends with %r, the objective at the returned point was %r" % (flog[-1], there))
        require(flog[0] == rec.f[0][1] or flog[0] != flog[0], "scg:log", "the log does not begin with the objective at the start")
        if opt is not None:
            require(opt.f_opt == flog[-1] or flog[-1] != flog[-1], "scg:reported", lambda: "f_opt %r, log ends %r" % (opt.f_opt, flog[-1]))
        if in_model and not np.isnan(flog[-1]):
            require(np.array_equal(rec.left, xb), "scg:reported", "the model was not left at the returned point")
        # the points accepted on the way
        acc = [(x0, flog[0])]
        for (y, v), l in zip(rec.f[1:], flog[1:]):
            if v == l and v <= acc[-1][1]:
                acc.append((y, v))
        s = str(status)
        xtol, ftol, gtol = tol.get("xtol", 1e-6), tol.get("ftol", 1e-6), tol.get("gtol", 1e-5)
        if "maxiter" in s:
            require(iters == o["maxiters"], "scg:status", lambda: "status %r after %d of %d iterations" % (s, iters, o["maxiters"]))
        elif "objective" in s:
            require(iters and abs(flog[-1] - flog[-2]) < ftol, "scg:status", lambda: "status %r, the last step changed the objective by %r" % (s, flog[-2] - flog[-1]))
        elif "stepsize" in s:
            step = np.max(np.abs(acc[-1][0] - acc[-2][0])) if len(acc) > 1 else np.inf
            require(step < xtol + 1e-12 * (1 + np.max(np.abs(xb))), "scg:status", lambda: "status %r, the last step was %r" % (s, step))
        elif "gradient" in s:
            gs = [g for y, g, _ in rec.g if np.array_equal(y, xb)]
            require(gs and min(g.dot(g) for g in gs) <= gtol * (1 + 1e-9), "scg:status", lambda: "status %r, gradient %s" % (s, gs[-1:]))
        else:
            require(False, "scg:status", lambda: "status %r does not say why it stopped" % s)
        clean = not rec.faults and o["wall"] is None
        if clean and o["kind"] in ("quad", "flat", "indef", "quartic", "waves", "abs", "stairs"):
            require(all(np.isfinite(y).all() for y, v in rec.f) and all(np.isfinite(y[0]).all() for y in rec.g), "scg:nowhere", lambda: "the objective was evaluated at %s" % fl([y for y, v in rec.f if not np.isfinite(y).all()][:1]))
        if o["kind"] == "quad" and clean and rec.buf is None and o["maxiters"] >= 100 and o["tol"] != "loose":
            low = o["shift"] + sum((1.0, 2.0)[:o["optargs"]] if o["mode"] == "direct" else ())
            gap = flog[-1] - low
            sim.probe("convex quadratic run to its minimum")
            require(gap <= (1e-5 if o["tol"] else 1e-2) * o["scale"], "scg:minimum", lambda: "stopped %r above the minimum (started %r above) after %d iterations, %s" % (gap, flog[0] - low, iters, s))
