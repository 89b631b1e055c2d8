"""The library working as a whole (C29): the shipped ridge regression models through histories of changes of values, data, constraints,
optimization, copies and failing basis functions, against the closed formula."""
import contextlib, copy, gc, io
import numpy as np
from .core import Violation, require, same, close, InjectedFault, InjectedInterrupt, fl
from . import seams

CTL = [None]
EXC = dict(value=ValueError, linalg=np.linalg.LinAlgError, zero=ZeroDivisionError, fault=InjectedFault, interrupt=InjectedInterrupt)
TOLERATED = ("value", "linalg", "zero")


def classes():
    from paramz.examples import ridge_regression as rr
    if not hasattr(classes, "cache"):
        class Waves(rr.Basis):
            """a basis of the user's, whose evaluation can fail"""
            def __init__(self, degree, name="waves"):
                super(Waves, self).__init__(degree, name)

            def basis(self, X, i):
                c = CTL[0]
                if c is not None:
                    c()
                return np.cos(i * np.asarray(X))
        # found again when saved
        globals()["Waves"] = Waves
        Waves.__qualname__ = "Waves"
        classes.cache = Waves
    return rr, classes.cache


def phi(kind, X, i):
    return X ** i if kind == "poly" else np.cos(i * X)


class Ref(object):
    """what a model is: data, weights, what is fixed, and whether it has heard of the last change"""
    def __init__(self, m, X, Y, lam, reg, kind, degree):
        self.m, self.X, self.Y, self.lam, self.reg, self.kind, self.degree = m, X, Y, lam, reg, kind, degree
        self.fix = np.zeros((degree + 1, X.shape[1]), dtype=bool)
        self.bound = np.zeros((degree + 1, X.shape[1]), dtype=bool)
        self.pending = False
        self.W = np.array(m.weights)

    def twin(self, m):
        r = copy.copy(self)
        r.m, r.X, r.Y, r.fix, r.bound, r.W = m, self.X.copy(), self.Y.copy(), self.fix.copy(), self.bound.copy(), self.W.copy()
        return r

    def predict(self, X):
        return sum(phi(self.kind, X, i).dot(self.W[[i]].T) for i in range(self.degree + 1))

    def objective(self):
        d = self.Y - self.predict(self.X)
        r = (self.W ** 2).sum() if self.reg == "ridge" else np.abs(self.W).sum()
        return float((d ** 2).sum() + self.lam * r)

    def gradient(self):
        d = self.Y - self.predict(self.X)
        g = np.array([-2 * (d * phi(self.kind, self.X, i)).sum(0) for i in range(self.degree + 1)])
        return g + self.lam * (2 * self.W if self.reg == "ridge" else np.sign(self.W))

    def best(self):
        """the least objective of a ridge regression that is free everywhere"""
        A = np.concatenate([phi(self.kind, self.X, i) for i in range(self.degree + 1)], 1)
        w = np.linalg.solve(A.T.dot(A) + self.lam * np.eye(A.shape[1]), A.T.dot(self.Y[:, 0]))
        keep, self.W = self.W, w.reshape(self.degree + 1, -1)
        f = self.objective()
        self.W = keep
        return f


class RidgeScenario(object):
    def __init__(self, prop="C29"):
        self.prop = prop

    def generate(self, rng, tier):
        cfg = dict(n=rng.randint(2, 6), d=rng.randint(1, 3), degree=rng.randint(0, 3), reg=rng.choice(["ridge", "ridge", "lasso"]), lam=rng.choice([0.1, 0.5, 1.0, 3.0]),
                   kind=rng.choice(["poly", "waves"]), seed=rng.randrange(10 ** 6))
        W = dict(write=10, setopt=6, data=8, replace=3, trigger=4, predict=8, held=6, hold=3, phi=3, fix=3, unfix=3, bound=3, unbound=2, optimize=5, restarts=1, check=2, copy=4, drop=2, gc=2, cache=3, updates=2)
        names = sorted(W)
        steps = []
        faulty = cfg["kind"] == "waves" and rng.random() < 0.7
        for _ in range(rng.randint(4, 60 if tier == "thorough" else 24)):
            s = dict(op=rng.choices(names, [W[k] for k in names])[0], m=rng.randrange(100), i=rng.randrange(100), j=rng.randrange(100), k=rng.randrange(100), seed=rng.randrange(10 ** 6))
            if faulty and rng.random() < 0.3:
                n = rng.choice([0, 0, 1, 2, 3, 5, 9])
                s["fault"] = [n, n + rng.choice([0, 0, 1, 3, 40]), rng.choice(sorted(EXC))]
            if rng.random() < 0.3:
                s["look"] = False
            steps.append(s)
        return dict(cfg=cfg, steps=steps)

    # ------------------------------------------------------------------
    def execute(self, plan, sim):
        rr, Waves = classes()
        cfg = plan["cfg"]
        r = np.random.RandomState(cfg["seed"])
        X, Y = np.round(r.uniform(-1.5, 1.5, (cfg["n"], cfg["d"])), 3), np.round(r.uniform(-2, 2, (cfg["n"], 1)), 3)
        reg = (rr.Ridge if cfg["reg"] == "ridge" else rr.Lasso)(cfg["lam"])
        basis = (rr.Polynomial if cfg["kind"] == "poly" else Waves)(cfg["degree"])
        m = rr.RidgeRegression(X.copy(), Y.copy(), regularizer=reg, basis=basis)
        self.sim, self.models, self.held = sim, [Ref(m, X, Y, cfg["lam"], cfg["reg"], cfg["kind"], cfg["degree"])], []
        seams.CLOCK.active, seams.CLOCK.now, seams.CLOCK.on_read = True, 1.0e9, None
        self.verify("building")
        for st in plan["steps"]:
            sim.current = st["op"]
            sim.op(st["op"])
            R = self.models[st["m"] % len(self.models)]
            self.fired = []
            self.arm(st.get("fault"))
            exc = None
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    getattr(self, "op_" + st["op"])(R, st)
            except Violation:
                raise
            except BaseException as e:
                if not any(e is f for f in self.fired):
                    raise
                exc = e
                self.failed(R, st)
            finally:
                CTL[0] = None
            sim.ev(st["op"], "raised " + type(exc).__name__ if exc is not None else "returned", fl(np.array(R.m.weights)))
            if st.get("look", True):
                self.verify(st["op"])
            sim.state(st["op"], R.fix.tobytes(), R.bound.tobytes(), R.pending, len(self.models), exc is not None)
        self.verify("the whole history")
        if len(plan["steps"]) > 2:
            sim.nontrivial = True

    def cleanup(self):
        CTL[0] = None
        seams.CLOCK.active = False
        self.models, self.held = [], []

    def arm(self, f):
        if not f:
            return
        count = [0]
        def c():
            k = count[0]
            count[0] += 1
            if f[0] <= k <= f[1]:
                e = EXC[f[2]]("basis, call %d" % k)
                self.fired.append(e)
                self.sim.fault("basis raises " + f[2])
                self.sim.choice("fault", k, f[2])
                raise e
        CTL[0] = c

    def failed(self, R, st):
        """a basis function that raised: the weights are as before or as asked for, and the next change brings the model up to date"""
        W = np.array(R.m.weights)
        require(st["op"] == "write" or same(W[R.fix], R.W[R.fix]), "ridge:fixed", "a fixed weight was changed")
        R.W, R.pending = W, True

    def verify(self, when):
        for R in self.models:
            m = R.m
            self.sim.checks += 1
            W = np.array(m.weights)
            require(same(W, R.W), "ridge:weights", lambda: "after %s the weights are %r, should be %r" % (when, W, R.W))
            require(same(np.array(m.X), R.X) and same(np.array(m.Y), R.Y), "ridge:data", lambda: "after %s the data changed" % when)
            if R.pending or not m.update_model():
                continue
            f, g = R.objective(), R.gradient()
            require(close(m.objective_function(), f, 1e-7, 1e-9), "ridge:objective", lambda: "after %s the objective is %r, by the formula %r" % (when, m.objective_function(), f))
            require(close(np.array(m.weights.gradient), g, 1e-6, 1e-7), "ridge:gradient", lambda: "after %s the gradient is %r, by the formula %r" % (when, np.array(m.weights.gradient), g))

    def settle(self, R):
        R.W = np.array(R.m.weights)
        R.pending = False

    # ------------------------------------------------------------------ operations
    def some(self, R, st):
        r = np.random.RandomState(st["seed"])
        return np.round(r.uniform(-3, 3, R.W.shape), 3)

    def op_write(self, R, st):
        w = R.m.weights
        v, want = self.some(R, st), R.W.copy()
        row, col = st["i"] % R.W.shape[0], st["j"] % R.W.shape[1]
        how = st["k"] % 5
        if how == 0:
            want[row, col] = v[row, col]
            act = lambda: w.__setitem__((row, col), v[row, col])
        elif how == 1:
            want[row] = v[row]
            act = lambda: w[row].__setitem__(Ellipsis, v[row])
        elif how == 2:
            want[:] = v
            act = lambda: w.__setitem__(slice(None), v)
        elif how == 3:
            want[:] = v.flat[0]
            act = lambda: R.m.__setitem__(".*weights", v.flat[0])
        else:
            want *= 0.5
            act = lambda: w.__imul__(0.5)
        R.pending = True
        act()
        R.W = want
        R.pending = not R.m.update_model()

    def op_setopt(self, R, st):
        if R.fix.all():
            return                  # there is nothing to set
        x = np.random.RandomState(st["seed"]).uniform(-2, 2, int((~R.fix).sum()))
        want = R.W.copy()
        want[~R.fix] = x
        b = R.bound & ~R.fix
        want[b] = -20 + 40 / (1 + np.exp(-want[b]))
        R.m.optimizer_array = x
        require(close(np.array(R.m.weights), want, 1e-9, 1e-9), "ridge:vector", lambda: "the vector %r gave the weights %r, should be %r" % (x, np.array(R.m.weights), want))
        self.settle(R)
        R.pending = not R.m.update_model()

    def op_data(self, R, st):
        v = round(np.random.RandomState(st["seed"]).uniform(-1.5, 1.5), 3)
        a, ref = (R.m.X, R.X) if st["k"] % 2 else (R.m.Y, R.Y)
        i, j = st["i"] % ref.shape[0], st["j"] % ref.shape[1]
        if st["k"] % 3 == 0:
            a[i, j] = v
            ref[i, j] = v
        elif st["k"] % 3 == 1:
            a[i][:] = v
            ref[i] = v
        else:
            a += v
            ref += v
            R.m.__dict__["X" if st["k"] % 2 else "Y"] = a
        R.pending = True

    def op_replace(self, R, st):
        from paramz import ObsAr
        r = np.random.RandomState(st["seed"])
        n = r.randint(1, 7)
        R.X, R.Y = np.round(r.uniform(-1.5, 1.5, (n, R.X.shape[1])), 3), np.round(r.uniform(-2, 2, (n, 1)), 3)
        R.m.X, R.m.Y = ObsAr(R.X.copy()), ObsAr(R.Y.copy())
        R.pending = True
        gc.collect()

    def op_trigger(self, R, st):
        R.m.trigger_update()
        R.pending = not R.m.update_model()

    def op_updates(self, R, st):
        on = st["k"] % 3 > 0
        R.pending = True
        R.m.update_model(on)
        R.pending = not on

    def op_predict(self, R, st):
        r = np.random.RandomState(st["seed"])
        X = np.round(r.uniform(-1.5, 1.5, (r.randint(1, 5), R.X.shape[1])), 3)
        got, want = np.asarray(R.m.predict(X)), R.predict(X)
        require(close(got, want, 1e-9, 1e-9), "ridge:predict", lambda: "predicting %r gives %r, by the formula %r" % (X, got, want))
        got, want = np.asarray(R.m.predict(R.m.X)), R.predict(R.X)
        require(close(got, want, 1e-9, 1e-9), "ridge:predict", lambda: "predicting the training data gives %r, by the formula %r" % (got, want))

    def op_hold(self, R, st):
        from paramz import ObsAr
        r = np.random.RandomState(st["seed"])
        if len(self.held) < 4:
            self.held.append(ObsAr(np.round(r.uniform(-1.5, 1.5, (r.randint(1, 5), R.X.shape[1])), 3)))

    def op_held(self, R, st):
        """inputs of the caller's, changed in place between the predictions"""
        if not self.held:
            return
        X = self.held[st["i"] % len(self.held)]
        if st["k"] % 2:
            X[st["j"] % X.shape[0], 0] = round(np.random.RandomState(st["seed"]).uniform(-1.5, 1.5), 3)
        got, want = np.asarray(R.m.predict(X)), R.predict(np.array(X))
        require(close(got, want, 1e-9, 1e-9), "ridge:predict", lambda: "predicting the held inputs %r gives %r, by the formula %r" % (np.array(X), got, want))
        if st["k"] % 5 == 0:
            self.held.remove(next(h for h in self.held if h is X)) if False else self.held.__delitem__([h is X for h in self.held].index(True))

    def op_phi(self, R, st):
        r = np.random.RandomState(st["seed"])
        X = np.round(r.uniform(-1.5, 1.5, (2, R.X.shape[1])), 3)
        deg = None if st["k"] % 2 else [int(q) for q in r.permutation(R.degree + 1)[:1 + st["i"] % (R.degree + 1)]]
        got = np.asarray(R.m.phi(X, deg))
        want = np.array([phi(R.kind, X, i) * R.W[[i]] for i in (range(R.degree + 1) if deg is None else deg)])
        require(close(got, want, 1e-9, 1e-9), "ridge:phi", lambda: "phi of %r, degrees %r, is %r, by the formula %r" % (X, deg, got, want))

    def rows(self, R, st):
        return st["i"] % R.W.shape[0]

    def op_fix(self, R, st):
        i = self.rows(R, st)
        R.fix[i] = True
        R.m.weights[i].fix() if st["k"] % 2 else R.m.weights[[i]].fix()
        self.told(R)

    def op_unfix(self, R, st):
        if st["k"] % 3 == 0:
            R.fix[:] = False
            R.m.unfix()
        else:
            i = self.rows(R, st)
            R.fix[i] = False
            R.m.weights[i].unfix()

    def op_bound(self, R, st):
        i = self.rows(R, st)
        if (np.abs(R.W[i]) > 19).any():
            return
        R.bound[i], R.fix[i] = True, False
        R.m.weights[i].constrain_bounded(-20.0, 20.0, warning=False)
        require(close(np.array(R.m.weights), R.W, 1e-8, 1e-8), "ridge:weights", lambda: "constraining moved the weights from %r to %r" % (R.W, np.array(R.m.weights)))
        self.told(R)

    def op_unbound(self, R, st):
        i = self.rows(R, st)
        R.m.weights[i].unconstrain()
        R.bound[i] = R.fix[i] = False

    def told(self, R):
        """some changes of constraints are also announced: then the model has heard of everything before"""
        R.W = np.array(R.m.weights)
        if R.pending:
            R.m.trigger_update()
            R.pending = not R.m.update_model()

    def op_optimize(self, R, st):
        name = ["lbfgsb", "scg", "simplex", "fmin_tnc", "org-bfgs", "rprop"][st["k"] % 6]
        free = (~R.fix).any()
        R.m.update_model(True)
        R.m.trigger_update()
        R.pending = False
        f0, W0, n0 = R.objective(), R.W.copy(), len(R.m.optimization_runs)
        q = R.m.optimize(name, max_iters=[0, 1, 3, 200][st["j"] % 4], messages=st["i"] % 5 == 0)
        R.W = np.array(R.m.weights)
        require(same(R.W[R.fix], W0[R.fix]), "ridge:fixed", "optimizing moved a fixed weight")
        if not free:
            return
        require(len(R.m.optimization_runs) == n0 + 1, "ridge:record", "no run on record")
        f = R.objective()
        if not self.fired:
            require(close(q.f_opt, f, 1e-7, 1e-9), "ridge:f_opt", lambda: "f_opt is %r, by the formula %r" % (q.f_opt, f))
            if name in ("lbfgsb", "scg", "simplex", "fmin_tnc", "org-bfgs"):
                require(f <= f0 + 1e-9 * (1 + abs(f0)), "ridge:worse", lambda: "%s went from %r to %r" % (name, f0, f))
            if name in ("lbfgsb", "org-bfgs") and "onverged" in str(q.status) and R.reg == "ridge" and not R.fix.any() and not R.bound.any():
                b = R.best()
                self.sim.probe("converged runs compared with the least squares solution")
                require(f <= b + 1e-2 * (1 + abs(b)), "ridge:optimum", lambda: "%s converged at %r, the optimum is %r" % (name, f, b))
        else:
            R.pending = True
            R.m.trigger_update() if CTL[0] is None else None

    def op_restarts(self, R, st):
        if not (~R.fix).any():
            return
        R.m.update_model(True)
        R.m.trigger_update()
        R.pending = False
        n0 = len(R.m.optimization_runs)
        np.random.seed(st["seed"])
        try:
            R.m.optimize_restarts(3, robust=True, verbose=False, max_iters=[3, 20][st["j"] % 2])
        finally:
            R.W = np.array(R.m.weights)
            R.pending = bool(self.fired)
        if not self.fired:
            f = [float(q.f_opt) for q in R.m.optimization_runs[n0:]]
            require(len(f) == 3 and close(min(f), R.objective(), 1e-7, 1e-9), "ridge:restarts", lambda: "restarts came to %r, the model is at %r" % (f, R.objective()))

    def op_check(self, R, st):
        if R.reg == "lasso" and (np.abs(R.W) < 1e-3).any():
            return                  # not differentiable there
        if not (~R.fix).any():
            return
        R.m.update_model(True)
        R.m.trigger_update()
        R.pending = False
        W = R.W.copy()
        try:
            ok = R.m.checkgrad() if st["k"] % 2 else R.m.checkgrad(verbose=True)
        finally:
            R.W = np.array(R.m.weights)
            R.pending = bool(self.fired)
        require(close(R.W, W, 1e-8, 1e-8), "ridge:check", lambda: "checking the gradient moved the weights from %r to %r" % (W, R.W))
        if not self.fired and (np.abs(R.gradient()[~R.fix]) > 1e-2).all():
            require(bool(ok), "ridge:check", lambda: "the gradient %r of the example does not pass its check" % R.gradient())

    def op_copy(self, R, st):
        if len(self.models) < 4:
            c = R.m.copy()
            t = R.twin(c)
            self.models.append(t)

    def op_drop(self, R, st):
        if len(self.models) > 1:
            self.models = [q for q in self.models if q is not R]
            gc.collect() if st["k"] % 2 else None

    def op_gc(self, R, st):
        gc.collect()

    def op_cache(self, R, st):
        c = R.m.basis._basis
        [c.reset, c.disable_cacher, c.enable_cacher][st["k"] % 3]()
