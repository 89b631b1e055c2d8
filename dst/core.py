"""Simulation kernel shared by all scenarios.

A scenario is (generate, execute):
  generate(rng, tier) -> plan      a JSON document holding every decision of one run: configuration, steps,
                                   faults (which callback, which invocation, which exception), schedules.
  execute(plan, sim)               runs the real code under the plan; raises Violation on a broken property.
execute is a pure function of the plan and the code, so a plan is a replay file.
"""
import sys, os, json, hashlib, random, traceback, gc, contextlib, collections

REPO = os.environ.get("DST_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """A property is broken.  label identifies the kind of violation (stable under minimisation)."""
    def __init__(self, label, msg=""):
        Exception.__init__(self, label, msg)
        self.label, self.msg = label, msg


class HarnessBug(Exception):
    """The machinery itself is wrong; never a verdict about the code under test."""


class InjectedFault(Exception):
    """Raised by simulated environments; never by paramz."""


class InjectedInterrupt(BaseException):
    """A non-Exception fault, as Ctrl-C would be."""


class Sim(object):
    """What one simulated run records.  Recording never influences the run."""
    def __init__(self, keep=False):
        self._h = hashlib.sha256()
        self.n_events = 0
        self.keep = keep
        self.events = []
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.ops = collections.Counter()
        self.states = set()
        self.sched = hashlib.sha256()
        self.sim_seconds = 0.0
        self.checks = 0
        self.nontrivial = False

    def ev(self, *a):
        line = " ".join(str(x) for x in a)
        self._h.update(line.encode("utf-8", "replace") + b"\n")
        self.n_events += 1
        if self.keep:
            self.events.append(line)

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] += n

    def op(self, name):
        self.ops[name] += 1

    def state(self, *a):
        """Record a visited abstract state (hashed)."""
        self.states.add(hashlib.blake2b(repr(a).encode(), digest_size=8).hexdigest())

    def choice(self, *a):
        """Record a scheduling decision (for the interleaving count)."""
        self.sched.update(repr(a).encode() + b";")

    def digest(self):
        return self._h.hexdigest()


def fl(x):
    """Canonical text of a float or array for event logs (bit exact)."""
    import numpy as np
    a = np.asarray(x, dtype=float)
    if a.ndim == 0:
        return float(a).hex()
    return "[" + ",".join(float(v).hex() for v in a.ravel()) + "]"


def close(a, b, rtol=1e-9, atol=1e-9):
    import numpy as np
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= atol + rtol * np.abs(b)) | (a == b) | (np.isnan(a) & np.isnan(b))))


def same(a, b):
    """Bit-level equality up to nan==nan."""
    import numpy as np
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


def require(cond, label, msg=""):
    if not cond:
        raise Violation(label, msg() if callable(msg) else msg)


def in_paramz(tb):
    while tb is not None:
        if "/paramz/" in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


def run_plan(scn, plan, keep=False):
    """Execute one plan; returns (sim, None | dict(label,msg))."""
    import numpy as np
    sim = Sim(keep=keep)
    st = np.random.get_state()
    np.random.seed(int(plan.get("npseed", 0)) % (2 ** 32))
    random.seed(int(plan.get("npseed", 0)))
    v = None
    try:
        with np.errstate(all="ignore"):
            scn.execute(plan, sim)
    except Violation as e:
        v = dict(label=e.label, msg=str(e.msg)[:4000])
    except HarnessBug as e:
        raise
    except RecursionError as e:
        v = dict(label="exc:RecursionError", msg=traceback.format_exc()[-3000:])
    except MemoryError:
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not in_paramz(e.__traceback__):
            raise
        lab = "exc:%s:%s" % (type(e).__name__, getattr(sim, "current", "?"))
        v = dict(label=lab, msg=traceback.format_exc()[-3500:])
    finally:
        np.random.set_state(st)
        cleanup = getattr(scn, "cleanup", None)
        if cleanup:
            cleanup()
    sim.ev("END", v["label"] if v else "ok")
    return sim, v


def make_rng(seed, prop, idx):
    return random.Random("%s/%s/%s" % (seed, prop, idx))


def make_plan(scn, prop, seed, idx, tier):
    rng = make_rng(seed, prop, idx)
    plan = scn.generate(rng, tier)
    plan.setdefault("npseed", rng.randrange(2 ** 31))
    return json.loads(json.dumps(plan))     # a plan is exactly what its JSON text says


_first = [True]
def import_paramz():
    """Import the code under test from the working tree of the repository."""
    if REPO not in sys.path or sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import paramz
    f = os.path.realpath(paramz.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessBug("imported paramz from %s, not from %s" % (f, REPO))
    return paramz
