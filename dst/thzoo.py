"""User-side classes of the thread scenarios."""
import numpy as np
import paramz
from paramz import Model, Parameterized, Param
from paramz import transformations as T
from paramz.caching import Cache_this
from paramz.optimization.optimization import Optimizer


class TNode(Parameterized):
    derived = 0.0

    def parameters_changed(self):
        v = np.asarray(self.param_array, dtype=float).ravel()
        self.derived = float(np.dot(np.cos(np.arange(v.size)), v))


class TModel(Model):
    def __init__(self, name, seed):
        super(TModel, self).__init__(name)
        self.seed, self.seen, self.nchanged, self.derived, self.fail, self.ncomputed = seed, [], 0, 0.0, 0, 0

    def parameters_changed(self):
        v = np.asarray(self.param_array, dtype=float).ravel()
        self.nchanged += 1
        self.derived = float(np.dot(np.sin(np.arange(v.size) + 1), v))
        if v.size:
            self.gradient = 2 * (v - self.seed)

    def objective_function(self):
        self.seen.append(self.derived)
        if self.fail:
            self.fail -= 1
            raise ValueError("scheduled failure")
        v = np.asarray(self.param_array, dtype=float)
        return float(((v - self.seed) ** 2).sum())

    @Cache_this(limit=2)
    def cached(self, x):
        self.ncomputed += 1
        return float(np.asarray(x).sum()) + self.seed


class TScript(Optimizer):
    def __init__(self, seed, n=4):
        Optimizer.__init__(self, max_iters=10)
        self.opt_name, self.seed, self.n = "scripted", seed, n

    def opt(self, x_init, f_fp=None, f=None, fp=None):
        r = np.random.RandomState(self.seed)
        for i in range(self.n):
            x = r.uniform(-2, 2, x_init.size)
            self.last = (f, fp, f_fp)[i % 3 if self.seed % 4 == 3 else self.seed % 4](x)
        self.x_opt = r.uniform(-2, 2, x_init.size)
        self.f_opt = f_fp(self.x_opt)[0]
        self.last = None
        self.funct_eval, self.status = self.n + 1, "done"


class TMine(T.Logistic):
    """the user's own bounded constraint"""


class TPlain(T.Logexp):
    """the user's own positive constraint"""


class TFussy(T.Logistic):
    """the user's own constraint, whose construction can fail"""
    fail = set()

    def __init__(self, lower, upper, who=None):
        if who in type(self).fail:
            from .core import InjectedFault
            raise InjectedFault("scheduled")
        super(TFussy, self).__init__(lower, upper)
