"""Process-wide seams, installed before paramz is imported and inert until a scenario switches them on.

clock    time.time / datetime.datetime.now            -> SimClock
memory   numpy.empty                                  -> filled with one fixed value, so that nothing depends on stale memory
workers  multiprocessing.Pool                         -> SimPool (dst/pool.py) while a scenario runs
locks    threading.Lock / threading.RLock             -> scheduler-aware locks (pass-through outside a simulation)
"""
import time as _time, datetime as _dt, threading as _threading

_real_time = _time.time
_real_datetime = _dt.datetime


class SimClock(object):
    def __init__(self):
        self.now = 1.0e9
        self.active = False
        self.reads = 0
        self.on_read = None
        self.elapsed = 0.0

    def advance(self, dt):
        self.now += dt
        self.elapsed += abs(dt)

    def time(self):
        if not self.active:
            return _real_time()
        self.reads += 1
        if self.on_read is not None:
            self.on_read(self)
        return self.now


CLOCK = SimClock()


class SimDatetime(_real_datetime):
    @classmethod
    def now(cls, tz=None):
        if not CLOCK.active:
            return _real_datetime.now(tz)
        return _real_datetime.fromtimestamp(CLOCK.time(), tz)


_RealLock = _threading.Lock
_RealRLock = _threading.RLock
SCHED = [None]      # the active thread scheduler, if any


class SimLock(object):
    """A lock whose waiting is decided by the simulated scheduler when one is active."""
    reentrant = False

    def __init__(self):
        self._real = _RealRLock() if self.reentrant else _RealLock()
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = SCHED[0]
        me = s.me() if s is not None else None
        if me is None:
            return self._real.acquire(blocking, timeout)
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            s.block(me, self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        s = SCHED[0]
        me = s.me() if s is not None else None
        if me is None:
            return self._real.release()
        self.count -= 1
        if self.count == 0:
            self.owner = None
            s.unblock(self)

    def locked(self):
        return self.owner is not None or (not self.reentrant and self._real.locked())

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True

    def _is_owned(self):
        s = SCHED[0]
        me = s.me() if s is not None else None
        if me is None:
            return self._real._is_owned()
        return self.owner == me


POISON = -7.25e77


def install_memory():
    import numpy
    real = numpy.empty

    def empty(*a, **k):
        r = real(*a, **k)
        if r.dtype.kind == "f":
            r.fill(POISON)
        return r
    numpy.empty = empty


def install_clock():
    _time.time = CLOCK.time
    _dt.datetime = SimDatetime


def install_locks():
    _threading.Lock = SimLock
    _threading.RLock = SimRLock


POOL = [None]       # the factory of simulated worker pools, if any


def install_pool():
    import multiprocessing
    real = multiprocessing.Pool

    def Pool(*a, **k):
        return POOL[0](*a, **k) if POOL[0] is not None else real(*a, **k)
    multiprocessing.Pool = Pool


def uninstall_lock_names():
    """After paramz is imported the rest of the process gets the real ones again."""
    _threading.Lock = _RealLock
    _threading.RLock = _RealRLock


def setup(prop=None):
    """Import everything heavy with real primitives, then paramz with the seams in place."""
    import numpy, scipy.optimize, multiprocessing, logging, decorator, six  # noqa
    from . import core
    install_clock()
    install_memory()
    install_pool()
    install_locks()
    from . import climin_stub, h5stub, notebook_stub
    notebook_stub.install()
    climin_stub.install()
    h5stub.install()
    try:
        p = core.import_paramz()
    finally:
        uninstall_lock_names()
    # scipy etc. keep the wrapped clock: it is pass-through while inactive
    return p


# ---------------------------------------------------------------- what scipy's optimizers say about their runs
class scipy_answers(object):
    """while active, appends (converged | budget | other, evaluations, raw status) for every scipy optimizer that returns"""
    NAMES = ("fmin_tnc", "fmin_l_bfgs_b", "fmin_bfgs", "fmin")

    def __init__(self, out):
        self.out = out

    def __enter__(self):
        import scipy.optimize as so
        self.so, self.old = so, {}
        for n in self.NAMES:
            self.old[n] = getattr(so, n)
            setattr(so, n, self.wrap(n, self.old[n]))
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(self.so, n, f)

    def wrap(self, n, f):
        def g(*a, **kw):
            r = f(*a, **kw)
            try:
                self.out.append(self.read(n, r))
            except Exception:
                pass
            return r
        return g

    def read(self, n, r):
        if n == "fmin_tnc":
            return ({0: "converged", 1: "converged", 2: "converged", 3: "budget"}.get(r[2], "other"), r[1], r[2])
        if n == "fmin_l_bfgs_b":
            return ({0: "converged", 1: "budget"}.get(r[2]["warnflag"], "other"), r[2]["funcalls"], r[2]["warnflag"])
        if n == "fmin_bfgs":
            return ({0: "converged", 1: "budget"}.get(r[6], "other"), r[4], r[6])
        return ({0: "converged", 1: "budget", 2: "budget"}.get(r[4], "other"), r[3], r[4])
