"""A stand-in for climin, which is not installed here: the three minimisers paramz drives, with climin's interface - the vector handed in
is stepped in place, iterating yields one dictionary per step, and the iteration never ends by itself."""
import sys, types
import numpy as np


class Minimizer(object):
    def __init__(self, wrt, fprime):
        self.wrt, self.fprime, self.n_iter = wrt, fprime, 0

    def __iter__(self):
        while True:
            g = self.iterate()
            self.n_iter += 1
            yield dict(n_iter=self.n_iter, gradient=g, args=[], kwargs={})


class Adadelta(Minimizer):
    def __init__(self, wrt, fprime, step_rate=1, decay=0.9, momentum=0, offset=1e-4, args=None):
        Minimizer.__init__(self, wrt, fprime)
        self.step_rate, self.decay, self.momentum, self.offset = step_rate, decay, momentum, offset
        self.gms = self.sms = self.step = 0

    def iterate(self):
        step1 = self.step * self.momentum * self.step_rate
        self.wrt -= step1
        g = self.fprime(self.wrt)
        self.gms = self.decay * self.gms + (1 - self.decay) * g ** 2
        step2 = np.sqrt(self.sms + self.offset) / np.sqrt(self.gms + self.offset) * g * self.step_rate
        self.wrt -= step2
        self.step = step1 + step2
        self.sms = self.decay * self.sms + (1 - self.decay) * self.step ** 2
        return g


class Rprop(Minimizer):
    def __init__(self, wrt, fprime, step_shrink=0.5, step_grow=1.2, min_step=1e-6, max_step=1, changes_max=0.1, args=None):
        Minimizer.__init__(self, wrt, fprime)
        self.shrink, self.grow, self.min_step, self.max_step = step_shrink, step_grow, min_step, max_step
        self.old = np.zeros(np.shape(wrt))
        self.changes = np.full(np.shape(wrt), 0.5 * changes_max)

    def iterate(self):
        g = np.array(self.fprime(self.wrt), dtype=float)
        p = self.old * g
        self.changes = np.clip(self.changes * np.where(p > 0, self.grow, np.where(p < 0, self.shrink, 1.)), self.min_step, self.max_step)
        self.wrt -= self.changes * np.sign(g)
        self.old = g
        return g


class Adam(Minimizer):
    def __init__(self, wrt, fprime, step_rate=.0002, decay=1 - 1e-8, decay_mom1=0.1, decay_mom2=0.001, momentum=0, offset=1e-8, args=None):
        Minimizer.__init__(self, wrt, fprime)
        if not 0 < decay_mom1 <= 1 or not 0 < decay_mom2 <= 1:
            raise ValueError("decay_mom1 and decay_mom2 have to lie in (0, 1]")
        self.step_rate, self.decay_mom1, self.decay_mom2, self.momentum, self.offset = step_rate, decay_mom1, decay_mom2, momentum, offset
        self.m1 = self.m2 = self.step = 0

    def iterate(self):
        t = self.n_iter + 1
        step1 = self.step * self.momentum * self.step_rate
        self.wrt -= step1
        g = self.fprime(self.wrt)
        self.m1 = self.decay_mom1 * g + (1 - self.decay_mom1) * self.m1
        self.m2 = self.decay_mom2 * g ** 2 + (1 - self.decay_mom2) * self.m2
        rate = self.step_rate * (1 - (1 - self.decay_mom2) ** t) ** 0.5 / (1 - (1 - self.decay_mom1) ** t)
        step2 = rate * self.m1 / (np.sqrt(self.m2) + self.offset)
        self.wrt -= step2
        self.step = step1 + step2
        return g


def install():
    """`import climin` finds the stand-in from now on"""
    top = types.ModuleType("climin")
    for name, cls in (("adadelta", Adadelta), ("rprop", Rprop), ("adam", Adam)):
        m = types.ModuleType("climin." + name)
        setattr(m, cls.__name__, cls)
        setattr(top, name, m)
        setattr(top, cls.__name__, cls)
        sys.modules["climin." + name] = m
    sys.modules["climin"] = top
