"""User-side models and optimizers of the optimizer scenarios.  CTL[0] is the active simulation control."""
import numpy as np
from paramz import Model, Parameterized, Param
from paramz.optimization import optimization as O

CTL = [None]


def hit(where, obj):
    c = CTL[0]
    if c is not None:
        c.hit(where, obj)


class ONode(Parameterized):
    idx = None

    def parameters_changed(self):
        hit("pc:%s" % self.idx, self)


def value_and_slope(v, cfg):
    """the user's objective: separable quadratic plus an optional coupling; cfg = (a, c, b); with a hinge it is zero on one side"""
    a, c, b = cfg
    if isinstance(b, str):
        h = np.maximum(0.0, v - c)
        return float((a * h ** 2).sum()), 2 * a * h
    f = float((a * (v - c) ** 2).sum())
    g = 2 * a * (v - c)
    if b and v.size > 1:
        p = v[:-1] * v[1:]
        f += b * float(np.sin(p).sum())
        g = g.copy()
        g[:-1] += b * np.cos(p) * v[1:]
        g[1:] += b * np.cos(p) * v[:-1]
    return f, g


def region(v, mod):
    """a deterministic pseudo-random property of a point"""
    if not np.isfinite(v).all():
        return 1
    return int(abs(float(np.dot(np.cos(np.arange(v.size) + 1.0), np.clip(v, -1e6, 1e6)))) * 997) % mod


class OModel(Model):
    """style eager: everything is computed in parameters_changed; lazy: the objective is computed when asked for"""
    def __init__(self, name, style, cfg, wrong=None, nan=None):
        super(OModel, self).__init__(name)
        self.style, self.cfg, self.wrong, self.nan = style, cfg, wrong, nan
        self.fvalue = np.nan

    def _values(self):
        return np.array(self.param_array, dtype=float)

    def _compute(self):
        v = self._values()
        cfg = [np.asarray(q, dtype=float)[:v.size] if np.ndim(q) else q for q in self.cfg]
        f, g = value_and_slope(v, cfg)
        if self.wrong:
            for i, d in self.wrong.items():
                i = int(i)
                if i < g.size:
                    g[i] = spoil(g[i], d)
        if self.nan and region(v, self.nan[0]) == 0:
            f = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[self.nan[1]]
            if len(self.nan) > 2:
                g[self.nan[2] % g.size] = f
        return f, g

    def parameters_changed(self):
        hit("pc:root", self)
        if self.size == 0:
            return
        f, g = self._compute()
        if self.style == "eager":
            self.fvalue = f
        self.gradient = g

    def objective_function(self):
        hit("obj", self)
        if self.style == "eager":
            return self.fvalue
        return self._compute()[0]

    def objective_function_gradients(self):
        hit("grad", self)
        if self.style == "override":
            return self._compute()[1]
        return self.gradient


class Probe(object):
    """Mixed in before an optimizer: every evaluation passes through the control."""
    tag = None

    def opt(self, x_init, f_fp=None, f=None, fp=None):
        c = CTL[0]
        if c is None:
            return super(Probe, self).opt(x_init, f_fp=f_fp, f=f, fp=fp)
        c.run_begin(self, x_init)
        try:
            super(Probe, self).opt(x_init, f_fp=c.wrap("b", f_fp), f=c.wrap("f", f), fp=c.wrap("g", fp))
        except BaseException as e:
            c.run_exc(self, e)
            raise
        c.run_end(self)


class ScriptBase(O.Optimizer):
    """Makes the evaluations it was told to: [[kind, seed, scale], ...]; reports one of the points honestly."""
    def __init__(self, script, pick="best", max_iters=10):
        O.Optimizer.__init__(self, max_iters=max_iters)
        self.opt_name = "scripted"
        self.script, self.pick = script, pick

    def opt(self, x_init, f_fp=None, f=None, fp=None):
        c = CTL[0]
        salt = c.run if c is not None else 0
        best = None
        n = 0
        for kind, seed, scale in self.script:
            r = np.random.RandomState((seed + 7919 * salt) % 2 ** 32)
            x = np.array(x_init, dtype=float) if scale == 0 else r.uniform(-scale, scale, np.size(x_init))
            n += 1
            if kind == "f":
                v = f(x)
            elif kind == "g":
                fp(x)
                v = None
            else:
                v = f_fp(x)[0]
            if v is not None and (best is None or v < best[0] or (self.pick == "last")):
                best = (v, x)
        self.x_opt = np.array(x_init if best is None or self.pick == "start" else best[1], dtype=float)
        self.f_opt = f_fp(self.x_opt)[0]
        self.funct_eval = n + 1
        self.status = "script finished"


class Script(Probe, ScriptBase):
    pass


class WTnc(Probe, O.opt_tnc):
    pass


class WLbfgsb(Probe, O.opt_lbfgsb):
    pass


class WBfgs(Probe, O.opt_bfgs):
    pass


class WSimplex(Probe, O.opt_simplex):
    pass


class WScg(Probe, O.opt_SCG):
    pass


class WAdadelta(Probe, O.Opt_Adadelta):
    pass


class WRprop(Probe, O.RProp):
    pass


class WAdam(Probe, O.Adam):
    pass


WRAPPED = dict(tnc=WTnc, lbfgsb=WLbfgsb, bfgs=WBfgs, simplex=WSimplex, scg=WScg, adadelta=WAdadelta, rprop=WRprop, adam=WAdam)
NAMES = dict(tnc="fmin_tnc", lbfgsb="lbfgsb", bfgs="org-bfgs", simplex="simplex", scg="scg", adadelta="adadelta", rprop="rprop", adam="adam")
CLASSES = dict(tnc=O.opt_tnc, lbfgsb=O.opt_lbfgsb, bfgs=O.opt_bfgs, simplex=O.opt_simplex, scg=O.opt_SCG, adadelta=O.Opt_Adadelta, rprop=O.RProp, adam=O.Adam)


def spoil(g, how):
    """a gradient entry made wrong"""
    return 0.0 if how == "zero" else -g if how == "flip" else 2 * g if how == "double" else g + how
