"""Optimizer scenario (C10, C11, C12, C16, C20, C21): histories of optimizing, restarting and gradient-checking models
whose evaluations fail on schedule, under a simulated clock and terminal, against an independent model of the objective."""
import contextlib, io, re, itertools
import numpy as np
from .core import Violation, InjectedFault, InjectedInterrupt, require, close, same, fl
from . import refmodel as R, seams

TOL = ("linalg", "zero", "value", "unicode", "jitter")
OTHER = ("fault", "key", "arith", "interrupt")
GROUPS = {"C10": ("absorb",), "C11": ("end",), "C12": ("restart", "end"), "C16": ("spect",), "C20": ("check",), "C21": ("slope",), "C28": ("end", "restart", "steps", "absorb", "slope")}
CONS = [["Logexp"], ["NegativeLogexp"], ["Exponent"], ["NegativeExponent"], ["Square"], ["Logistic", 0.0, 1.0], ["Logistic", -2.0, 5.0]]
KINDS = ["tnc", "lbfgsb", "bfgs", "simplex", "scg"]
CLIMIN = ["adadelta", "rprop", "adam"]


class JitterError(np.linalg.LinAlgError):
    pass


def make_exc(name, what):
    if name == "linalg":
        return np.linalg.LinAlgError(what)
    if name == "jitter":
        return JitterError(what)
    if name == "unicode":
        return UnicodeDecodeError("ascii", b"x", 0, 1, what)
    return dict(zero=ZeroDivisionError, value=ValueError, fault=InjectedFault, key=KeyError, arith=FloatingPointError,
                interrupt=InjectedInterrupt)[name](what)


class Ctl(object):
    """Sees every callback of one step: decides faults, judges every evaluation."""
    def __init__(self, world, m, faults, clock=None, judge=True):
        self.world, self.m, self.sim = world, m, world.sim
        self.faults, self.clock, self.judge = faults, clock or [], judge
        self.run, self.ev, self.kind = -1, None, None
        self.npc, self.gap, self.nev = 0, 0, 0
        self.fired = []            # of the current evaluation
        self.allfired = []
        self.log = []              # run-begin, run-end, run-exc, gap
        self.trace = []            # (kind, x, answer)
        self.violation = None
        self.handed = []           # (array, copy)
        self.within = 0
        self.active = True
        self.last_failed = False
        self.strict = False

    def flag(self, label, msg):
        if self.violation is None:
            self.violation = Violation(label, msg)

    # ---- seams
    def hit(self, where, obj):
        if not self.active:
            return
        if where == "pc:root":
            self.npc += 1
            if self.ev is None:
                self.gap += 1
        for f in self.faults:
            if f["where"] != where:
                continue
            w = f["when"]
            if w[0] == "eval":
                ok = self.ev is not None and w[1] <= self.ev <= w[2] and (w[3] is None or w[3] == self.run)
            elif w[0] == "gap":
                ok = self.ev is None and where == "pc:root" and self.run == w[1] and self.gap == w[2]
            elif w[0] == "n":
                ok = self.npc == w[1]
            else:
                ok = region_of(self.m, w[1]) == 0
            if ok:
                e = make_exc(f["exc"], "%s %s" % (where, w))
                rec = dict(exc=e, where=where, tol=f["exc"] in TOL, ev=self.ev, run=self.run, gap=self.gap, name=f["exc"])
                self.sim.ev("    fault", where, w, f["exc"])
                self.sim.fault("%s raises %s" % (where.split(":")[0], f["exc"]))
                self.sim.choice("fault", where, f["exc"], self.ev)
                self.fired.append(rec)
                self.allfired.append(rec)
                if self.ev is None:
                    self.log.append(("gap", rec))
                raise e

    def run_begin(self, opt, x0):
        self.run += 1
        self.ev = None
        self.gap = 0
        self.within = 0
        self.nrun = 0
        self.log.append(("begin", np.array(x0, dtype=float)))
        self.sim.choice("run")

    def run_end(self, opt):
        self.gap = 0
        self.log.append(("end", np.array(opt.x_opt, dtype=float), opt.f_opt, self.last_failed))
        self.sim.ev("   run ends f", fl(opt.f_opt))

    def run_exc(self, opt, e):
        self.gap = 0
        self.log.append(("exc", e))

    def wrap(self, kind, fn):
        if fn is None:
            return None
        def evaluate(x, *a):
            return self.evaluate(kind, fn, x)
        return evaluate

    def evaluate(self, kind, fn, x):
        k = self.nrun
        self.nrun += 1
        self.nev += 1
        if self.clock:
            dt = self.clock[self.nev % len(self.clock)]
            seams.CLOCK.advance(dt)
            self.sim.sim_seconds += abs(dt)
        self.kind, self.fired = kind, []
        x0 = np.array(x, dtype=float)
        self.ev = k
        exc, r = None, None
        try:
            r = fn(x)
        except BaseException as e:
            exc = e
        finally:
            self.ev = None
            self.gap = 0
        if self.judge:
            with np.errstate(all="ignore"):
                self.check_eval(kind, x0, x, r, exc)
        elif exc is None and kind != "f":
            self.hand(r if kind == "g" else r[1])
        f, g = (r if kind == "b" else ((r, None) if kind == "f" else (None, r))) if exc is None else (None, None)
        self.trace.append((kind, x0, None if f is None else float(f), None if g is None else np.array(g, dtype=float), None if exc is None else type(exc).__name__))
        self.sim.ev("   eval", kind, fl(x0), "raises " + type(exc).__name__ if exc is not None else "f " + (fl(f) if f is not None else "-"))
        if exc is not None:
            raise exc
        return r

    def check_eval(self, kind, x0, x, r, exc):
        W = self.world
        self.sim.checks += 1
        fired = [q for q in self.fired if not (kind == "g" and q["where"] == "obj")]
        last_pc = max([i for i, q in enumerate(fired) if q["where"].startswith("pc")] + [-1])
        fired = [q for i, q in enumerate(fired) if i >= last_pc or q["where"] != "obj"]      # before that, only a display looked
        other = [q for q in fired if not q["tol"]]
        self.last_failed = bool(fired)
        if exc is not None and kind == "g" and any(exc is q["exc"] and q["name"] == "interrupt" for q in self.fired):
            return          # the display's own look at the objective was interrupted
        if self.strict and isinstance(exc, FloatingPointError):
            return          # numpy was told to raise
        if exc is not None and not any(exc is q["exc"] for q in fired):
            return self.flag("eval:raised", "evaluation %r raised %r which nothing injected (fired: %s)" % (kind, exc, [repr(q["exc"]) for q in fired]))
        if other:
            W.fail_hi += any(q["tol"] for q in fired)      # it may count
            if not any(exc is q["exc"] for q in other):
                self.flag("absorb:other", "%r is to propagate at once, evaluation %s" % (other[0]["exc"], "raised %r" % exc if exc is not None else "returned"))
            return
        if fired:
            if exc is not None:
                if W.fail_hi < 10:
                    self.flag("absorb:early", "failure number %d in a row raised %r" % (W.fail_hi + 1, exc))
                elif not any(exc is q["exc"] for q in fired if q["where"] == fired[0]["where"]):
                    self.flag("absorb:original", "raised %r instead of the original %r" % (exc, fired[0]["exc"]))
                return
            if self.within >= 10:
                self.flag("absorb:late", "failure number %d in a row (%r) was absorbed" % (self.within + 1, fired[0]["exc"]))
            self.within += 1
            W.fail_hi += 1
            self.sim.probe("absorbed failures in a row: %d" % self.within if self.within in (1, 10) else "absorbed failures")
            f, g = (r if kind == "b" else ((r, None) if kind == "f" else (None, r)))
            if kind != "g" and f != np.inf:
                self.flag("absorb:objective", "absorbed %r but the objective given is %r" % (fired[0]["exc"], f))
            if kind != "f":
                g = np.asarray(g, dtype=float)
                if g.shape != x0.shape or (np.abs(g) > 1e101).any():
                    self.flag("absorb:gradient", "absorbed %r but the gradient given is %r for %d entries" % (fired[0]["exc"], g, x0.size))
                self.hand(r if kind == "g" else r[1])
            return
        # a success
        self.within = W.fail_hi = 0
        if not same(x, x0):
            self.flag("slope:x", "the point the optimizer asked for was altered: %r -> %r" % (x0, x))
        f, g = (r if kind == "b" else ((r, None) if kind == "f" else (None, r)))
        for a, b in self.handed:
            if not same(a, b):
                self.flag("slope:aliased", "a gradient handed out earlier changed from %r to %r" % (b, a))
        if kind != "f":
            self.hand(g)
        if not np.isfinite(x0).all():
            return
        v, comparable = W.at(x0)
        if comparable is None:
            return
        fw, gw = W.objective(v)
        if kind != "g" and not close(f, fw, 1e-7, 1e-7):
            self.flag("slope:objective", "objective given at %r is %r, the model's there is %r" % (x0, f, fw))
        if kind != "f":
            want = W.chain(gw, v)
            g = np.asarray(g, dtype=float)
            if g.shape != want.shape:
                self.flag("slope:shape", "gradient has %d entries for %d free scalars" % (g.size, want.size))
            else:
                bad = comparable & ~((np.abs(g - want) <= 1e-6 + 1e-6 * np.abs(want)) | (g == want))
                if bad.any():
                    self.flag("slope:gradient", "at %r gradient given %r, slope %r" % (x0, g, want))
            own = np.array(self.m.gradient, dtype=float).ravel()
            if not close(own, gw, 1e-7, 1e-7):
                self.flag("slope:own", "the model's own gradient is %r, should be %r" % (own, gw))

    def hand(self, g):
        if isinstance(g, np.ndarray) and len(self.handed) < 60:
            self.handed.append((g, np.array(g, dtype=float)))


def region_of(m, mod):
    from .optzoo import region
    return region(np.array(m.param_array, dtype=float), mod)


class Terminal(io.StringIO):
    """A terminal that fails: from write number n on, once or for good."""
    def __init__(self, sim, n, kind, once):
        super().__init__()
        self.sim, self.n, self.kind, self.once, self.raised = sim, n, kind, once, []

    def write(self, s):
        self.n -= 1
        if self.n < 0 and not (self.once and self.raised):
            e = {"full": OSError(28, "No space left on device"), "pipe": BrokenPipeError(32, "Broken pipe"), "closed": ValueError("I/O operation on closed file.")}[self.kind]
            self.raised.append(e)
            self.sim.fault("terminal fails: %s" % self.kind)
            raise e
        return super().write(s)


class World(object):
    """One model and what it should be: values, constraint and fix of every scalar."""
    def __init__(self, sim, cfg):
        import paramz
        from paramz.transformations import Logexp, NegativeLogexp, Exponent, NegativeExponent, Square, Logistic
        from . import optzoo as Z
        self.Z, self.paramz = Z, paramz
        self.T = dict(Logexp=Logexp, NegativeLogexp=NegativeLogexp, Exponent=Exponent, NegativeExponent=NegativeExponent, Square=Square, Logistic=Logistic)
        self.sim, self.cfg = sim, cfg
        Z.CTL[0] = None
        n = sum(int(np.prod(l["shape"])) for l in cfg["leaves"])
        rs = np.random.RandomState(cfg["seed"])
        self.a = rs.uniform(0.3, 2.0, n)
        self.c = rs.uniform(-1.5, 2.5, n)
        self.ob = (self.a, self.c, cfg["coupling"])
        self.m = Z.OModel("m", cfg["style"], self.ob, nan=cfg.get("nan"))
        nodes = [self.m]
        for i, p in enumerate(cfg["nodes"]):
            nd = Z.ONode("n%d" % i)
            nd.idx = i
            nodes.append(nd)
        for i, p in enumerate(cfg["nodes"]):
            nodes[min(p, i)].link_parameter(nodes[i + 1])
        owner = {}
        for i, l in enumerate(cfg["leaves"]):
            k = l["parent"] % len(nodes)
            leaf = paramz.Param("p%d" % i, np.round(rs.uniform(-1.5, 2.0, l["shape"]), 3))
            owner.setdefault(k, []).append(leaf)
        for k, ls in owner.items():
            nodes[k].link_parameters(*ls)
        self.keys = [None] * n
        self.fixed = np.zeros(n, bool)
        self.snapshot_records = []
        self.fail_hi = 0
        self.refresh()
        for op in cfg["setup"]:
            self.change(op)

    # ---- structure through the public interface
    def refresh(self):
        m = self.m
        self.leaves = []
        def walk(x):
            for c in x.parameters:
                if hasattr(c, "parameters") and len(getattr(c, "parameters")):
                    walk(c)
                elif isinstance(c, self.paramz.Param):
                    self.leaves.append(c)
        walk(m)
        self.off, o = {}, 0
        for l in self.leaves:
            self.off[id(l)] = o
            o += l.size
        self.n = o

    def values(self):
        return np.concatenate([np.array(l.values, dtype=float).ravel() for l in self.leaves]) if self.leaves else np.zeros(0)

    def pick(self, i, sel):
        """leaf i, selection -> (handle, flat global indices)"""
        l = self.leaves[i % len(self.leaves)]
        o = self.off[id(l)]
        if sel is None or l.ndim != 1:
            return l, np.arange(o, o + l.size)
        idx = sorted(set(s % l.size for s in sel))
        return l[idx], o + np.array(idx)

    def change(self, op):
        """A plain change between runs; kept in step with the reference flags."""
        k = op["op"]
        self.sim.op(k)
        h, idx = self.pick(op.get("leaf", 0), op.get("sel"))
        if k == "constrain":
            key = tuple(op["key"])
            if key[0] in ("NegativeLogexp", "NegativeExponent"):
                h[...] = -np.abs(np.asarray(h)) - 0.05
            elif key[0] == "Logistic":
                lo, hi = key[1], key[2]
                h[...] = lo + (hi - lo) * (0.1 + 0.8 * (np.abs(np.asarray(h)) % 1.0))
            else:
                h[...] = np.abs(np.asarray(h)) + 0.05
            h.constrain(self.T[key[0]](*key[1:]))
            for i in idx:
                self.keys[i] = key
            self.fixed[idx] = False
        elif k == "fix":
            h.fix()
            self.fixed[idx] = True
        elif k == "unfix":
            h.unfix()
            self.fixed[idx] = False
        elif k == "write":
            r = np.random.RandomState(op["seed"])
            v = [R.legal(self.keys[i], round(float(r.uniform(-2, 2)), 3)) for i in idx]
            if "near" in op:        # at, or next to, the optimum
                v = [q if self.keys[i] is not None else self.c[i] + op["near"] for q, i in zip(v, idx)]
            h[...] = np.array(v).reshape(np.shape(np.asarray(h)))
        elif k == "updates":
            self.m.update_model(op["on"])
        elif k == "switch":
            old = self.m
            self.m = self.m.copy()
            if getattr(old, "wrong", None):
                self.m.wrong = dict(old.wrong)
            self.refresh()
        elif k == "wrong":
            self.m.wrong = {str(int(i) % max(1, self.n)): d for i, d in op["delta"].items()}
            self.m.update_model(True)
            self.m.trigger_update()

    # ---- reference
    def at(self, x):
        """values at an optimizer vector; mask of entries whose slope can be compared (None: nothing can)"""
        v = self.base.copy()
        free = np.where(~self.fixed)[0]
        if x.size != free.size:
            return v, None
        ok = np.ones(x.size, bool)
        for j, i in enumerate(free):
            k = self.keys[i]
            if k is None:
                v[i] = x[j]
                continue
            v[i] = R.tf(k, x[j])
            if k[0] == "Square" and x[j] < 1e-3 or k[0] in ("Exponent", "NegativeExponent") and abs(x[j]) > 30 or abs(x[j]) > 200:
                ok[j] = False
            if k[0] == "Logistic" and abs(x[j]) > 25 or k[0] in ("Logexp", "NegativeLogexp") and x[j] < -30:
                ok[j] = False
        if not np.isfinite(v).all() or (np.abs(v) > (1e4 if not self.cfg["coupling"] else 50)).any():
            return v, None
        return v, ok

    def objective(self, v):
        from .optzoo import value_and_slope, region
        f, g = value_and_slope(v, self.ob)
        nan = self.cfg.get("nan")
        if nan and region(v, nan[0]) == 0:
            f = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[nan[1]]
        return f, g

    def chain(self, g, v):
        free = np.where(~self.fixed)[0]
        return np.array([g[i] * (1.0 if self.keys[i] is None else float(R.slope(self.keys[i], v[i]))) for i in free])

    def vector(self, v):
        free = np.where(~self.fixed)[0]
        return np.array([v[i] if self.keys[i] is None else float(R.tinv(self.keys[i], v[i])) for i in free])

    def structure(self):
        m = self.m
        cons = [sorted((str(type(c).__name__) + str(c), [int(i) for i in idx]) for c, idx in m.constraints.items() if len(idx))]
        return repr((cons, m.parameter_names(), [len(l.values.ravel()) for l in self.leaves]))


FMT = re.compile(r"^(?:(\d{2,})d)?(?:(\d{2})h)?(?:(\d{2})m)?(?:(-?\d{1,})s)?(\d{2})?$")


def parse_time(s):
    """printed runtime -> (seconds, resolution); None if malformed"""
    for pat, unit, res in ((r"^(\d{2})s(\d{2})$", (1, .01), .01), (r"^(\d{2})m(\d{2})s(\d{2})$", (60, 1, .01), .01),
                           (r"^(\d{2})h(\d{2})m(\d{2})s?$", (3600, 60, 1), 1.), (r"^(\d{2,})d(\d{2})h(\d{2})m?$", (86400, 3600, 60), 60.)):
        g = re.match(pat, s)
        if g:
            parts = [int(q) for q in g.groups()]
            if any(p >= {86400: 10 ** 9, 3600: 24, 60: 60, 1: 60}.get(u, 100) for p, u in zip(parts, unit)):
                return None, None       # sixty minutes are an hour
            return sum(p * u for p, u in zip(parts, unit)), res
    if re.match(r"^-\d+s\d\d$", s):
        return None, 0
    return None, None


NUM = r"\s*[+-]?(?:\d+(?:\.\d+)?(?:e[+-]?\d+)?|nan|inf)"
PROGRESS = re.compile(r"^\s*(\S+)\s+(\d+)\s+(%s)\s+(%s)\s*$" % (NUM, NUM))


class OptScenario(object):
    strict, terminal = False, None
    shrink_lists = (("cfg", "setup"), ("cfg", "leaves"), ("cfg", "nodes"))

    nb = None

    def __init__(self, prop):
        self.prop = prop
        self.groups = GROUPS[prop]

    # ------------------------------------------------------------------ generation
    def generate(self, rng, tier):
        P = self.prop
        nn = rng.choice([0, 1, 1, 2])
        nl = rng.randint(1, 4)
        cfg = dict(seed=rng.randrange(10 ** 6), style=rng.choice(["eager", "lazy", "override", "eager"]), coupling=rng.choice([0, 0, 0.3] if P != "C20" or rng.random() < 0.8 else ["hinge"]),
                   nodes=[rng.randrange(3) for _ in range(nn)],
                   leaves=[dict(shape=rng.choice([[1], [2], [3], [2, 2], [1]]), parent=rng.randrange(4)) for _ in range(nl)], setup=[])
        if P != "C20" and rng.random() < (0.3 if P in ("C12", "C16") else 0.1):
            cfg["nan"] = [rng.choice([3, 5, 9]), rng.choice(["nan", "nan", "inf", "-inf"] if P != "C11" else ["nan", "inf"])]
            if P == "C16" and rng.random() < 0.5:
                cfg["nan"].append(rng.randrange(3))
        sel = lambda: None if rng.random() < 0.6 else [rng.randrange(4) for _ in range(rng.randint(1, 2))]
        for _ in range(rng.randint(0, 4)):
            cfg["setup"].append(dict(op="constrain", leaf=rng.randrange(4), sel=sel(), key=rng.choice(CONS)))
        for _ in range(rng.choice([0, 1, 1, 2])):
            cfg["setup"].append(dict(op="fix", leaf=rng.randrange(4), sel=sel()))
        steps = []
        for _ in range(rng.randint(1, 6 if tier == "thorough" else 4)):
            for _ in range(rng.choice([0, 0, 1, 2])):
                steps.append(self.gen_change(rng, sel))
            steps.append(self.gen_main(rng, sel, nn))
        return dict(cfg=cfg, steps=steps)

    def gen_change(self, rng, sel):
        k = rng.choices(["write", "fix", "unfix", "constrain", "updates", "switch"], [6, 2, 3, 3, 1 if self.prop != "C20" else 0, 2])[0]
        s = dict(op=k, leaf=rng.randrange(4), sel=sel())
        if k == "constrain":
            s["key"] = rng.choice(CONS)
        elif k == "write":
            s["seed"] = rng.randrange(10 ** 6)
            if rng.random() < (0.2 if self.prop == "C20" else 0.05):
                s["near"] = rng.choice([0, 1e-6, 5e-7, -5e-7, 1e-3])
        elif k == "updates":
            s["on"] = rng.random() < 0.3
        return s

    def gen_script(self, rng, n=None):
        kinds = rng.choice(["fgb", "b", "fg", "gb", "fgb"])
        out = []
        for _ in range(n or rng.randint(1, 30 if self.prop in ("C10",) else 12)):
            if out and rng.random() < 0.2:
                out.append([rng.choice(kinds)] + out[rng.randrange(len(out))][1:])
            else:
                out.append([rng.choice(kinds), rng.randrange(10 ** 6), rng.choice([0, 0.5, 2, 2, 5, 20])])
        return out

    def gen_faults(self, rng, nn, n_ev, restarts=None):
        P = self.prop
        out = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            where = rng.choice(["obj", "obj", "grad", "pc:root", "pc:root"] + ["pc:%d" % i for i in range(nn)])
            exc = rng.choice(TOL) if rng.random() < (0.85 if P == "C10" else 0.5) else rng.choice(OTHER)
            u = rng.random()
            run = None if restarts is None or rng.random() < 0.2 else rng.randrange(restarts)
            if u < 0.7 or P in ("C12",) and u < 0.75:
                a = rng.randrange(max(1, n_ev))
                b = a + rng.choice([0, 0, 0, 1, 3, 9, 10, 11, 12, 15])
                when = ["eval", a, b, run]
            elif u < 0.85 and restarts is not None:
                where = "pc:root"
                when = ["gap", rng.randrange(-1, restarts), rng.choice([1, 1, 2])]
            elif u < 0.9 and restarts is None:
                where = "pc:root"
                when = ["gap", rng.choice([-1, 0, 0]), 1]
            else:
                when = ["region", rng.choice([2, 3, 5, 9])]
            if P == "C16" and where in ("obj", "grad") and exc == "interrupt":
                where = "pc:root"
            out.append(dict(where=where, when=when, exc=exc))
        return out

    def gen_opt(self, rng):
        P = self.prop
        u = rng.random()
        if u < (0.85 if P in ("C10", "C21") else 0 if P == "C28" else 0.45):
            return dict(k="script", script=self.gen_script(rng), pick=rng.choice(["best", "last", "start"]), inst=rng.choice([0, 1, 2, None, None]))
        real = dict(k=rng.choice(KINDS if P != "C28" and rng.random() < 0.85 else CLIMIN), by=rng.choice(["inst", "inst", "name", "name"]), iters=rng.choice([0, 1, 3, 8, 20]))
        if real["k"] == "tnc" and rng.random() < 0.3:
            real["iters"] = rng.choice([1, 8, 40])
        for q in ("xtol", "ftol", "gtol"):
            if rng.random() < 0.15:
                real[q] = rng.choice([1e-2, 1e-8])
        if real["k"] == "lbfgsb" and rng.random() < 0.2:
            real["bfgs_factor"] = rng.choice([1e3, 1e12])
        opts = {}
        if real["k"] in CLIMIN:
            real["iters"] = rng.choice([0, 1, 2, 3, 8, 20, 60])
            if rng.random() < 0.7:
                opts = dict(adadelta=lambda: dict(step_rate=rng.choice([1, 0.1, 0.5]), decay=rng.choice([0.9, 0.5]), momentum=rng.choice([0, 0.5, 0.9])),
                            rprop=lambda: dict(step_shrink=rng.choice([0.5, 0.25]), step_grow=rng.choice([1.2, 2.0]), min_step=rng.choice([1e-6, 1e-2]), max_step=rng.choice([1, 0.1]), changes_max=rng.choice([0.1, 0.5])),
                            adam=lambda: dict(step_rate=rng.choice([2e-4, 0.1, 0.5]), decay_mom1=rng.choice([0.1, 0.5]), decay_mom2=rng.choice([0.001, 0.1]), momentum=rng.choice([0, 0.5]), offset=rng.choice([1e-8, 1e-2])))[real["k"]]()
                opts = {q: opts[q] for q in sorted(opts) if rng.random() < 0.6}
            real["opts"] = opts
        real["ask"] = rng.choice([0, 0, 0, 2, 3, 4])
        return real

    def gen_main(self, rng, sel, nn):
        P = self.prop
        if P == "C20":
            k = "checkgrad" if rng.random() < 0.9 else "optimize"
        elif P == "C12":
            k = "restarts" if rng.random() < 0.85 else "optimize"
        elif P == "C28":
            k = rng.choice(["optimize", "optimize", "restarts"])
        elif P == "C16":
            k = rng.choice(["optimize", "optimize", "optimize", "restarts"])
        else:
            k = rng.choices(["optimize", "restarts", "checkgrad"], [8, 1, 1])[0]
        if k == "optimize":
            o = self.gen_opt(rng)
            s = dict(op="optimize", opt=o, faults=self.gen_faults(rng, nn, len(o.get("script", [0] * 8))),
                     start=None if rng.random() < 0.7 else [rng.randrange(10 ** 6), rng.choice([1, 3] if P != "C28" else [1, 3, 3, 4000])], messages=rng.random() < 0.3)
        elif k == "restarts":
            o = self.gen_opt(rng)
            if o["k"] == "script":
                o["script"] = o["script"][:4]
            n = rng.choice([0, 1, 2, 3, 3, 4, 5])
            s = dict(op="restarts", n=n, opt=o, robust=rng.random() < 0.7, verbose=rng.random() < 0.8,
                     faults=self.gen_faults(rng, nn, len(o.get("script", [0] * 8)), restarts=max(n, 1)), messages=rng.random() < 0.15)
        else:
            s = dict(op="checkgrad", target=rng.choice(["model", "model", "node", "leaf", "leaf", "sel", "pattern"]), leaf=rng.randrange(4), sel=[rng.randrange(4) for _ in range(rng.randint(1, 2))],
                     verbose=rng.random() < 0.4, wrong={}, faults=[])
            if rng.random() < 0.6:
                for _ in range(rng.choice([1, 1, 2, 8])):
                    s["wrong"][str(rng.randrange(8))] = rng.choice([1.5, -2.0, 0.3, "zero", "zero", 30.0, "flip", "double"])
                if rng.random() < 0.15:
                    s["wrong"] = {str(i): rng.choice(["flip", "flip", "flip", "double"]) for i in range(12)}
            if rng.random() < 0.25:
                s["faults"] = self.gen_faults(rng, nn, 1)
                for f in s["faults"]:
                    if f["when"][0] in ("eval", "gap"):
                        f["when"] = ["n", rng.randint(1, 8)]
                        f["where"] = "pc:root"
        if k != "checkgrad" and rng.random() < (0.35 if P == "C16" else 0.1):
            s["notebook"] = rng.choice(["keep", "keep", "clear"])
        if k != "checkgrad" and P == "C16" and rng.random() < 0.2:
            s["strict"] = True      # numpy raises where it would warn
        if k == "optimize" and P == "C16" and "notebook" not in s and rng.random() < 0.15:
            s["terminal"] = [rng.choice([0, 1, 3, 4, 5, 6, 8, 12, 20, 40, 41, 42, 43, 44, 45, 60]), rng.choice(["full", "pipe", "closed", "closed"]), rng.random() < 0.3]
        s["clock"] = [rng.choice([0, 0, 0.01, 0.07, 0.15, 0.5, 0.999, 1.2, 3, 61.5, 4000, 100000.25] + ([-0.5, -5, -100] if rng.random() < 0.3 else [])) for _ in range(rng.randint(1, 6))]
        if rng.random() < 0.35:         # where one unit becomes the next
            s["clock"] = [rng.choice([59.985, 60, 60.5, 119.995, 3599.5, 3600, 3601.5, 3630.25, 3659.5, 3660, 7199.5, 86399.5, 86400, 86430, 86460, 89999.5, 90000, 99 * 86400.0, 100 * 86400 + 0.5])] + [rng.choice([0, 0, 0.01, 0.5])] * rng.choice([0, 200])
        return s

    # ------------------------------------------------------------------ execution
    def execute(self, plan, sim):
        cfg = plan["cfg"]
        if not cfg["leaves"]:
            return
        self.sim = sim
        A = World(sim, cfg)
        B = World(sim, cfg) if self.prop == "C16" else None
        self.insts, self.sim, self.answers = {}, sim, []
        seams.CLOCK.active = True
        seams.CLOCK.now = 1.0e9
        seams.CLOCK.on_read = None
        rng_state = np.random.get_state()
        for n, st in enumerate(plan["steps"]):
            sim.current = st["op"]
            sim.ev("step", n, st["op"])
            if st["op"] in ("optimize", "restarts", "checkgrad"):
                t0 = seams.CLOCK.now
                np.random.set_state(rng_state)
                ra = self.main(A, st, dict(messages=False) if B is not None else {}, "A")
                after = np.random.get_state()
                if B is not None and st["op"] != "checkgrad":
                    ta = seams.CLOCK.now
                    seams.CLOCK.now = t0
                    np.random.set_state(rng_state)
                    rb = self.main(B, st, dict(messages=True), "B")
                    if self.terminal and any(e is rb["exc"] for e in self.terminal.raised):
                        # the run may end with the error of the terminal, but no answer may differ because of it
                        self.twin_evaluations(ra["ctl"].trace, rb["ctl"].trace[:-1])
                        require(len(B.m.optimization_runs) <= len(A.m.optimization_runs), "spect:records", "a failed run is on record")
                        return
                    self.twin(A, B, ra, rb, after, np.random.get_state())
                    require(seams.CLOCK.now == ta, "spect:clock", "the number of evaluations differs")
                rng_state = after
            else:
                for w in (A, B):
                    if w is not None:
                        w.change(st)
            self.old_records(A)
            sim.state(tuple(A.keys), tuple(A.fixed), len(A.snapshot_records), A.fail_hi)

    def cleanup(self):
        seams.CLOCK.active = False
        from . import optzoo
        optzoo.CTL[0] = None

    def on(self, group):
        return group in self.groups

    def raise_flag(self, ctl):
        v = ctl.violation
        if v is not None:
            g = v.label.split(":")[0]
            if g in self.groups or g == "eval":
                raise v

    def make_opt(self, W, o, which):
        Z = W.Z
        if o["k"] == "script":
            key = (which, o["inst"])
            if o["inst"] is not None and key in self.insts:
                s = self.insts[key]
                s.script, s.pick = o["script"], o["pick"]
                return dict(optimizer=s)
            s = Z.Script(o["script"], o["pick"])
            if o["inst"] is not None:
                self.insts[key] = s
            return dict(optimizer=s)
        kw = {q: o[q] for q in ("xtol", "ftol", "gtol", "bfgs_factor") if q in o}
        kw.update(o.get("opts", {}))
        if o["by"] == "inst":
            return dict(optimizer=Z.WRAPPED[o["k"]](max_iters=o["iters"], **kw), max_iters=o["iters"])
        name = Z.NAMES[o["k"]]
        ask = o.get("ask", 0)
        if ask == 3:
            W.m.preferred_optimizer = name
            return dict(max_iters=o["iters"], **kw)
        return dict(optimizer=name.upper() if ask == 2 else name, max_iters=o["iters"], **kw)

    def unknown(self, W):
        """asking for an optimizer that does not exist changes nothing"""
        m = W.m
        v, n, struct = W.values(), len(m.optimization_runs), W.structure()
        out = io.StringIO()
        if bool(W.fixed.all()):
            return
        try:
            with contextlib.redirect_stdout(out):
                m.optimize("no such thing", messages=True)
        except Exception:
            pass
        else:
            raise Violation("end:unknown", "an optimizer which does not exist was run")
        require(same(W.values(), v) and len(m.optimization_runs) == n and W.structure() == struct, "end:unknown", "asking for an unknown optimizer changed the model")
        self.all_gone(W, "asking for an unknown optimizer")

    def main(self, W, st, over, which):
        W.base = W.values()
        W.sim.op(st["op"])
        ctl = Ctl(W, W.m, st["faults"], st["clock"], judge=(which == "A"))
        ctl.strict = st.get("strict", False)
        out = io.StringIO()
        if which == "B" and st.get("terminal"):
            out = Terminal(W.sim, *st["terminal"])
        self.terminal = out if isinstance(out, Terminal) else None
        st = dict(st, **over)
        self.nb = st.get("notebook") if st["op"] != "checkgrad" else None
        self.strict = st.get("strict", False)
        W.Z.CTL[0] = None
        try:
            return getattr(self, "do_" + st["op"])(W, st, ctl, out, which)
        finally:
            W.Z.CTL[0] = None
            if st["op"] != "checkgrad" and not (st["opt"]["k"] == "script" or st["opt"]["by"] == "inst") and ctl.allfired:
                W.fail_hi = 99          # nor after a run whose evaluations were not seen

    def call(self, W, ctl, out, fn):
        from . import notebook_stub as K
        W.Z.CTL[0] = ctl
        self.answers = []
        try:
            with contextlib.redirect_stdout(out), seams.scipy_answers(self.answers), (K.notebook() if self.nb else contextlib.nullcontext()), \
                    (np.errstate(all="raise", under="ignore") if self.strict else contextlib.nullcontext()):
                return fn(), None
        except BaseException as e:
            if isinstance(e, (SystemExit,)):
                raise
            return None, e
        finally:
            W.Z.CTL[0] = None

    def all_gone(self, W, where):
        """no display reacts to a change any more"""
        if not self.on("spect") and not self.on("end"):
            return
        out = io.StringIO()
        l = W.leaves[0]
        x = np.array(l.values, dtype=float)
        seams.CLOCK.now += 50
        with contextlib.redirect_stdout(out):
            l[...] = x
        seams.CLOCK.now -= 50
        require(out.getvalue() == "", "spect:attached" if self.on("spect") else "end:attached", lambda: "after %s a change of the model still prints %r" % (where, out.getvalue()[:200]))

    def fixed_untouched(self, W):
        v = W.values()
        if self.on("end"):
            require(same(v[W.fixed], W.base[W.fixed]), "end:fixed", lambda: "fixed values went from %r to %r" % (W.base[W.fixed], v[W.fixed]))
        return v

    def old_records(self, W):
        if not (self.on("end") or self.on("restart")):
            return
        runs = W.m.optimization_runs
        require(len(runs) >= len(W.snapshot_records), "end:lost", "a record disappeared")
        for r, (x, f, ne, s) in zip(runs, W.snapshot_records):
            require(same(r.x_opt, x) and same(r.f_opt, f) and r.funct_eval == ne and r.status == s, "end:record-altered", lambda: "a record went from %r, %r to %r, %r" % (x, f, r.x_opt, r.f_opt))

    def add_records(self, W, n0):
        for r in W.m.optimization_runs[n0:]:
            W.snapshot_records.append((np.array(r.x_opt, dtype=float), r.f_opt, r.funct_eval, r.status))

    def do_optimize(self, W, st, ctl, out, which):
        m = W.m
        n0 = len(m.optimization_runs)
        kw = self.make_opt(W, st["opt"], which)
        start = None
        free = int((~W.fixed).sum())
        if self.nb:
            kw["clear_after_finish"] = self.nb == "clear"
        if st["start"] is not None:
            start = np.random.RandomState(st["start"][0]).uniform(-st["start"][1], st["start"][1], free)
            kw["start"] = start.copy()
        if st["opt"].get("ask") == 4 and self.on("end") and which == "A" and not self.nb and m.update_model():
            self.unknown(W)
        struct = W.structure()
        t0 = seams.CLOCK.now
        ret, exc = self.call(W, ctl, out, lambda: m.optimize(messages=st["messages"], **kw))
        elapsed = seams.CLOCK.now - t0
        W.sim.ev("  optimize", "raised " + type(exc).__name__ if exc is not None else "returned", "evals", ctl.nev)
        self.raise_flag(ctl)
        W.sim.checks += 1
        if self.on("end"):
            require(W.structure() == struct, "end:structure", "optimizing changed the structure or the constraints")
            if start is not None:
                require(same(kw["start"], start), "end:start", "the start handed in was altered")
        v = self.fixed_untouched(W)
        if exc is not None:
            known = [q for q in ctl.allfired if q["exc"] is exc] + [e for e in (self.terminal.raised if self.terminal else ()) if e is exc]
            if not known and not (self.strict and isinstance(exc, FloatingPointError)):
                # real optimizers may give up on their own, but not the library
                raise exc
            if self.on("end"):
                require(len(m.optimization_runs) == n0, "end:recorded", "optimize raised %r but recorded a run" % exc)
            self.all_gone(W, "a failed optimize")
        elif free == 0:
            require(len(m.optimization_runs) == n0 and same(v, W.base), "end:nothing", "nothing was free, yet something changed")
        else:
            if self.on("end"):
                require(len(m.optimization_runs) == n0 + 1, "end:not-recorded", lambda: "%d runs recorded" % (len(m.optimization_runs) - n0))
                run = m.optimization_runs[-1]
                require(run is ret, "end:returned", "optimize returned something else than the run on record")
                if st["opt"]["k"] != "script":
                    require(isinstance(run, W.Z.CLASSES[st["opt"]["k"]]), "end:optimizer", lambda: "asked for %r, %r ran" % (st["opt"], type(run)))
                self.honest(run, st["opt"], ctl)
                self.at_point(W, run, "end", ctl)
                if self.on("steps") and st["opt"]["by"] == "inst":
                    self.steps(run, st["opt"], ctl)
                require(bool(m.update_model()), "end:updates", "updates are off after optimize")
            self.all_gone(W, "optimize")
        self.add_records(W, n0)
        if which == "B" and free:
            if self.nb:
                self.widgets(W, ctl, elapsed, exc, [ret] if exc is None else [], 1)
            else:
                if not (self.terminal and self.terminal.raised):
                    self.display(out.getvalue(), elapsed, exc, st)
        return dict(exc=exc, ctl=ctl, ret=ret, n0=n0)

    def honest(self, run, o, ctl):
        """what the record tells about the run is what the optimizer told, and it kept to its budget"""
        if len(self.answers) == 1:
            kind, calls, what = self.answers[0]
            text = str(run.status)
            told = "budget" if "aximum" in text else "converged" if text == "" or "onverge" in text or "Local minimum" in text else "other"
            require(told == kind, "end:status", lambda: "the run ended as %r (%s), its record says %r" % (kind, what, text))
            require(calls <= run.funct_eval <= calls + 1, "end:evaluations", lambda: "%d evaluations were made, the record says %r" % (calls, run.funct_eval))
            self.sim.probe("status %s of %s" % (kind, o["k"]))
        if o["k"] != "script":
            n = o["iters"]
            text = str(run)
            require(run.opt_name and run.opt_name in text and str(run.funct_eval) in text, "end:printed", lambda: "the run prints as %r" % text)
            if o["k"] in CLIMIN and o["by"] == "inst":
                require(max(1, n) <= run.funct_eval <= ctl.nev, "end:evaluations", lambda: "%d evaluations were made, the record says %r" % (ctl.nev, run.funct_eval))
            most = dict(lbfgsb=n + 45, tnc=3 * n + 80, simplex=n + 30, scg=3 * n + 3, bfgs=10 ** 9, adadelta=n, rprop=n, adam=n)[o["k"]] + 2
            require(ctl.nev <= most, "end:budget", lambda: "%d evaluations with max_iters=%d (%s)" % (ctl.nev, n, o["k"]))

    def steps(self, run, o, ctl):
        """the run is the one climin's minimiser makes with these options, as many steps as it was allowed"""
        from . import climin_stub as K
        told = [(x, g) for kind, x, f, g, e in ctl.trace if kind == "g"]
        n = max(1, o["iters"])
        require(len(told) == n and all(g is not None for x, g in told), "steps:number", lambda: "%d gradients were asked for in %d iterations" % (len(told), n))
        asked = []
        def fprime(x):
            asked.append(np.array(x, dtype=float))
            return told[len(asked) - 1][1]
        opts = dict(o.get("opts", {}))
        if o["k"] == "adadelta":
            opts = dict(dict(step_rate=0.1), **opts)
        with np.errstate(all="ignore"):
            mini = dict(adadelta=K.Adadelta, rprop=K.Rprop, adam=K.Adam)[o["k"]](np.array(told[0][0]), fprime, **opts)
            for info in mini:
                if info["n_iter"] >= n:
                    break
        require(all(same(a, x) for a, (x, g) in zip(asked, told)), "steps:path", lambda: "with %r climin asks at %r, the run asked at %r" % (opts, asked[:4], [x for x, g in told][:4]))
        require(same(mini.wrt, run.x_opt), "steps:end", lambda: "the minimiser stands at %r, the run reports %r" % (mini.wrt, run.x_opt))
        self.sim.probe("compared step by step")

    def at_point(self, W, run, label, ctl):
        """the model sits at the optimum the run reports"""
        x = np.asarray(run.x_opt, dtype=float)
        v = W.values()
        free = np.where(~W.fixed)[0]
        require(x.shape == free.shape, label + ":x_opt", lambda: "x_opt %r for %d free scalars" % (x, free.size))
        if not np.isfinite(x).all():
            return
        want = W.base.copy()
        for j, i in enumerate(free):
            want[i] = x[j] if W.keys[i] is None else R.tf(W.keys[i], x[j])
        ok = (np.abs(v - want) <= 1e-9 + 1e-9 * np.abs(want)) | (v == want)
        require(ok.all(), label + ":point", lambda: "model at %r, the reported optimum is %r" % (v, want))
        # the reported objective is the objective there - unless its evaluation was made to fail
        if ctl.log and ctl.log[-1][0] == "end" and ctl.log[-1][3]:
            return
        if any(f["when"][0] == "region" for f in ctl.faults) or (ctl.faults and label == "restart" and not np.isfinite(run.f_opt)):
            return
        if not any(q[0] == "end" for q in ctl.log) and ctl.allfired and not np.isfinite(run.f_opt):
            return          # the evaluations were not seen, the last one may have failed
        W.Z.CTL[0] = None
        if not W.m.update_model():
            return          # the caller has switched propagation off, so the objective is that of earlier values
        f = W.m.objective_function()
        require(close(f, run.f_opt, 1e-9, 1e-9), label + ":f_opt", lambda: "f_opt is %r, the model's objective there is %r" % (run.f_opt, f))
        if (np.abs(v) < 50).all():
            fw, gw = W.objective(v)
            require(close(f, fw, 1e-6, 1e-6) or W.cfg.get("nan"), label + ":stale", lambda: "the model's objective is %r, at its values it should be %r" % (f, fw))

    LINE = re.compile(r"^Optimization restart (\d+)/(\d+), f = (.*)$")
    WARN = re.compile(r"^Warning - optimization restart (\d+)/(\d+) failed$")

    def do_restarts(self, W, st, ctl, out, which):
        m = W.m
        n0 = len(m.optimization_runs)
        n = st["n"]
        kw = self.make_opt(W, st["opt"], which)
        free = int((~W.fixed).sum())
        updates = bool(m.update_model())
        if self.nb:
            kw["clear_after_finish"] = self.nb == "clear"
        t0 = seams.CLOCK.now
        x_before = None
        ret, exc = self.call(W, ctl, out, lambda: m.optimize_restarts(num_restarts=n, robust=st["robust"], verbose=st["verbose"], messages=st["messages"], **kw))
        W.sim.ev("  restarts", "raised " + type(exc).__name__ if exc is not None else "returned", "evals", ctl.nev, "log", [q[0] for q in ctl.log])
        self.raise_flag(ctl)
        W.sim.checks += 1
        v = self.fixed_untouched(W)
        runs = m.optimization_runs[n0:]
        traced = st["opt"]["k"] == "script" or st["opt"]["by"] == "inst"
        if exc is not None and not any(q["exc"] is exc for q in ctl.allfired) and not (self.strict and isinstance(exc, FloatingPointError)):
            raise exc
        if self.on("restart") and free:
            lines = [q for q in re.split(r"[\r\n]+", out.getvalue()) if "ptimization restart" in q]
            if not st["messages"]:
                self.check_restarts(W, st, ctl, exc, runs, lines, traced, updates, n, v)
        if exc is None and free == 0:
            require(not runs and same(v, W.base), "end:nothing", "nothing was free, yet something changed")
        self.add_records(W, n0)
        self.all_gone(W, "restarts")
        if which == "B" and free:
            if self.nb:
                self.widgets(W, ctl, None, exc, runs, n)
            else:
                self.displays(out.getvalue())
        return dict(exc=exc, ctl=ctl, ret=ret, n0=n0)

    def outcomes(self, ctl, n):
        """what each restart came to, from the log of the simulated optimizer: ('ok', x, f) or ('failed', exc)"""
        res, final = [], None
        pending = False
        for e in ctl.log:
            if e[0] == "begin":
                pending = True
            elif e[0] == "end":
                res.append(("ok", e[1], e[2]))
                pending = False
            elif e[0] == "exc":
                res.append(("failed", e[1]))
                pending = False
            elif e[0] == "gap":
                rec = e[1]
                if res and res[-1][0] == "ok" and rec["gap"] == 1:
                    res[-1] = ("failed", rec["exc"])         # while the model was put to that run's optimum
                elif len(res) < n:
                    res.append(("failed", rec["exc"]))      # while randomizing for the next one
                else:
                    final = rec["exc"]
        return res, final

    def check_restarts(self, W, st, ctl, exc, runs, lines, traced, updates, n, v):
        m = W.m
        parsed = []
        for l in lines:
            a, b = self.LINE.match(l.strip()), self.WARN.match(l.strip())
            require(a or b, "restart:line", lambda: "malformed line %r" % l)
            g = a or b
            parsed.append((int(g.group(1)), int(g.group(2)), g.group(3) if a else None))
        if not traced or any(q["where"] != "pc:root" and q["ev"] is None for q in ctl.allfired) or any(q["when"][0] == "region" for q in st["faults"]) or any(f["where"] == "pc:root" and f["when"][0] == "gap" and f["when"][1] == -1 for f in st["faults"]):
            # without the optimizer's own log only the outside is checked
            oks = runs
        else:
            res, final = self.outcomes(ctl, n)
            okr = [r for r in res if r[0] == "ok"]
            bad = [r for r in res if r[0] == "failed"]
            W.sim.probe("restart outcome " + ("all ok" if not bad else "all failed" if not okr else "mixed"))
            fatal = [r for r in bad if isinstance(r[1], InjectedInterrupt)]
            if not st["robust"] and bad:
                require(exc is bad[0][1], "restart:not-raised", lambda: "restart failed with %r, optimize_restarts %s" % (bad[0][1], "raised %r" % exc if exc is not None else "returned"))
                require(res.index(bad[0]) == len(res) - 1, "restart:went-on", "restarts went on after a failure that was to be raised")
            elif fatal:
                require(exc is fatal[0][1], "restart:interrupt", lambda: "an interrupt did not come through: %r" % exc)
            elif final is not None:
                require(exc is final, "restart:final", lambda: "the failure while choosing the best was lost: %r" % exc)
            else:
                require(exc is None, "restart:raised", lambda: "raised %r though robust (%s)" % (exc, [repr(b[1]) for b in bad]))
                require(len(res) == n, "restart:count", lambda: "%d restarts made of %d" % (len(res), n))
            require(len(runs) == len(okr), "restart:records", lambda: "%d runs recorded, %d finished" % (len(runs), len(okr)))
            for r, w in zip(runs, okr):
                require(same(r.x_opt, w[1]) and same(r.f_opt, w[2]), "restart:order", lambda: "recorded %r, the run ended at %r" % (r.x_opt, w[1]))
            if st["verbose"]:
                k = 0
                for i, p in enumerate(parsed):
                    require(p[0] == i + 1 and p[1] == n, "restart:line", lambda: "line %d is %r" % (i, p))
                    require((p[2] is not None) == (res[i][0] == "ok"), "restart:line-kind", lambda: "line %r for restart %r" % (p, res[i]))
                    if p[2] is not None:
                        require(p[2].strip() in (str(res[i][2]), repr(res[i][2])) or close(float(re.sub(r"[^0-9eE+.naif-]", "", p[2].replace("np.float64", ""))), res[i][2]), "restart:line-f", lambda: "line %r for %r" % (p, res[i]))
                if exc is None:
                    require(len(parsed) == n, "restart:lines", lambda: "%d lines for %d restarts" % (len(parsed), n))
        if exc is not None:
            return
        if runs:
            fs = np.array([float(r.f_opt) for r in runs])
            if np.isnan(fs).all():
                return
            lo = np.nanmin(fs)
            best = [r for r, f in zip(runs, fs) if f == lo]
            err = None
            for r in best:
                try:
                    self.at_point(W, r, "restart", _NoLog(st["faults"]))
                    return
                except Violation as e:
                    err = e
            raise err
        elif n > 0 or True:
            ok = (np.abs(v - W.base) <= 1e-7 + 1e-7 * np.abs(W.base)) | np.isnan(W.base)
            require(ok.all(), "restart:not-restored", lambda: "all restarts failed, the model went from %r to %r" % (W.base, v))

    # ------------------------------------------------------------------ gradient checks
    def target(self, W, st):
        m = W.m
        t = st["target"]
        if t == "model":
            return m, np.arange(W.n)
        leaf, idx = W.pick(st["leaf"], None)
        if t == "leaf":
            return leaf, idx
        if t == "sel":
            return W.pick(st["leaf"], st["sel"])
        if t == "node":
            p = leaf._parent_ if hasattr(leaf, "_parent_") else m
            cov = [W.off[id(l)] + k for l in W.leaves for k in range(l.size) if self.below(l, p)]
            return p, np.array(cov)
        a, b = W.pick(st["leaf"], None), W.pick(st["leaf"] + 1, None)
        names = sorted(set([a[0].name, b[0].name]))
        sel = m.grep_param_names(".*(%s)$" % "|".join(names))
        if len(sel) < 2:
            return leaf, idx
        return m[".*(%s)$" % "|".join(names)], np.unique(np.concatenate([a[1], b[1]]))

    def below(self, l, p):
        x = l
        while x is not None:
            if x is p:
                return True
            x = getattr(x, "_parent_", None)
        return False

    def verdict(self, W, st, idx):
        """what a gradient check has to say about these scalars; None where it is a matter of chance"""
        v = W.base
        if (np.abs(v) > 50).any():
            return None
        fw, g = W.objective(v)
        cl = g.copy()
        if W.m.wrong:
            for i, d in W.m.wrong.items():
                i = int(i)
                cl[i] = W.Z.spoil(cl[i], d)
        free = [i for i in idx if not W.fixed[i]]
        s = lambda q, i: q[i] * (1.0 if W.keys[i] is None else float(R.slope(W.keys[i], v[i])))
        for i in free:
            if W.keys[i] is not None:
                x = float(R.tinv(W.keys[i], v[i]))
                if not np.isfinite(x) or abs(x) > 15 or (W.keys[i][0] == "Square" and x < 1e-2):
                    return None
        t = np.array([s(g, i) for i in free])
        c = np.array([s(cl, i) for i in free])
        if not free:
            return True
        if st["verbose"]:
            res = []
            for a, b in zip(t, c):
                d = abs(a - b)
                r = abs(1 - a / b) if b else np.inf
                if d < 3e-4 or r < 3e-4:
                    res.append(True)
                elif d > 3e-3 and r > 3e-3:
                    res.append(False)
                else:
                    return None
            return all(res)
        if t.size > 9:
            return None
        if (np.abs(c) < 1e-6).all() and (np.abs(t) < 1e-6).all():
            return True
        res = set()
        for signs in itertools.product((1, -1), repeat=t.size):
            a, b = float(np.dot(signs, t)), float(np.dot(signs, c))
            if np.abs(c).max() < 2e-3 and abs(a) < 5e-3:
                return None
            if abs(b) < 1e-3:
                if np.abs(c).max() < 1e-6 and abs(a) > 5e-2:
                    res.add(False)
                    continue
                return None
            r = abs(1 - a / b)
            if r < 3e-4:
                res.add(True)
            elif r > 3e-3:
                res.add(False)
            else:
                return None
        return res.pop() if len(res) == 1 else None

    def do_checkgrad(self, W, st, ctl, out, which):
        m = W.m
        m.update_model(True)
        W.change(dict(op="wrong", delta=st["wrong"]))
        W.base = W.values()
        h, idx = self.target(W, st)
        want = self.verdict(W, st, idx)
        n0 = len(m.optimization_runs)
        struct = W.structure()
        W.sim.probe("gradient check should say %s" % want)
        np.random.seed(abs(hash(st["leaf"])) % 1000 + len(st["wrong"]))
        ctl.judge = False
        ret, exc = self.call(W, ctl, out, lambda: h.checkgrad(verbose=st["verbose"]))
        W.sim.ev("  checkgrad", st["target"], "raised " + type(exc).__name__ if exc is not None else bool(ret), "want", want)
        W.sim.checks += 1
        if exc is not None and not any(q["exc"] is exc for q in ctl.allfired):
            raise exc
        if any(q["tol"] for q in ctl.allfired):
            W.fail_hi = 99          # how the allowance stands after a check that met failures is not followed
        v = W.values()
        if self.on("check"):
            if exc is None and not ctl.allfired and want is not None:
                require(bool(ret) == want, "check:verdict", lambda: "checkgrad of %s (%s) says %s, should say %s; wrong %s" % (st["target"], "verbose" if st["verbose"] else "global", ret, want, st["wrong"]))
            tol = 1e-7 + 1e-7 * np.abs(W.base)
            bad = np.abs(v - W.base) > tol
            sat = np.array([k is not None and not np.isfinite(R.tinv(k, b)) for k, b in zip(W.keys, W.base)])
            require(not (bad & ~sat).any(), "check:values", lambda: "values went from %r to %r%s" % (W.base, v, " (it raised %r)" % exc if exc is not None else ""))
            require(same(v[W.fixed], W.base[W.fixed]), "check:fixed", "a fixed value was changed")
            require(W.structure() == struct and len(m.optimization_runs) == n0, "check:structure", "the check changed constraints, names or records")
            if exc is None and not ctl.allfired:
                fw, g = W.objective(v)
                for i, d in (m.wrong or {}).items():
                    g[int(i)] = W.Z.spoil(g[int(i)], d)
                own = np.array(m.gradient, dtype=float).ravel()
                require(close(own, g, 1e-6, 1e-6), "check:stale", lambda: "after the check the stored gradient is %r, at the values it is %r" % (own, g))
        m.wrong = None
        W.Z.CTL[0] = None
        m.trigger_update()
        self.all_gone(W, "checkgrad")
        return None

    # ------------------------------------------------------------------ with and without display
    def twin_evaluations(self, a, b):
        if not self.on("spect"):
            return
        for i, (p, q) in enumerate(zip(a, b)):
            eq = p[0] == q[0] and same(p[1], q[1]) and p[4] == q[4] and (p[2] is None) == (q[2] is None) and (p[3] is None) == (q[3] is None)
            eq = eq and (p[2] is None or same(p[2], q[2])) and (p[3] is None or same(p[3], q[3]))
            require(eq, "spect:evaluation", lambda: "evaluation %d: %r without display, %r with" % (i, p, q))

    def twin(self, A, B, ra, rb, sa, sb):
        if not self.on("spect"):
            return
        a, b = ra["ctl"], rb["ctl"]
        e = lambda q: "raised " + type(q["exc"]).__name__ if q["exc"] is not None else "returned"
        require(len(a.trace) == len(b.trace), "spect:evaluations", lambda: "%d evaluations without display, %d with (%s / %s)" % (len(a.trace), len(b.trace), e(ra), e(rb)))
        self.twin_evaluations(a.trace, b.trace)
        for h, c in b.handed:
            require(same(h, c), "spect:aliased", lambda: "with display a gradient handed out changed from %r to %r" % (c, h))
        require((ra["exc"] is None) == (rb["exc"] is None) and type(ra["exc"]) is type(rb["exc"]), "spect:outcome", lambda: "%s without display, %s with" % (e(ra), e(rb)))
        require(same(A.values(), B.values()), "spect:values", lambda: "%r without display, %r with" % (A.values(), B.values()))
        x, y = A.m.optimization_runs, B.m.optimization_runs
        require(len(x) == len(y), "spect:records", "different numbers of records")
        for r, s in zip(x, y):
            require(same(r.x_opt, s.x_opt) and same(r.f_opt, s.f_opt) and r.funct_eval == s.funct_eval and r.status == s.status and str(r.time) == str(s.time), "spect:record",
                    lambda: "record %r without display, %r with" % ((r.x_opt, r.f_opt, r.funct_eval, r.status, r.time), (s.x_opt, s.f_opt, s.funct_eval, s.status, s.time)))
        require(sa[0] == sb[0] and (sa[1] == sb[1]).all() and sa[2:] == sb[2:], "spect:random", "the global random state differs with display")
        require(A.fail_hi is not None and A.structure() == B.structure(), "spect:structure", "constraints or names differ with display")
        A.sim.probe("twin runs compared")

    def display(self, text, elapsed, exc, st):
        if not self.on("spect"):
            return
        self.displays(text, elapsed)

    CELL = re.compile(r"<td class='tg-left'>(.*?)</td>\s*<td class='tg-right'>(.*?)</td>", re.S)

    def widgets(self, W, ctl, elapsed, exc, runs, n):
        """what the notebook shows"""
        if not self.on("spect"):
            return
        from . import notebook_stub as K
        require(len(runs) <= len(K.SHOWN) <= n, "spect:widgets", lambda: "%d displays for %d runs" % (len(K.SHOWN), n))
        done = iter(runs)
        for w in K.SHOWN:
            inside, todo = [], [w]
            while todo:
                x = todo.pop()
                inside.append(x)
                todo.extend(getattr(x, "children", ()))
            bars = [x for x in inside if isinstance(x, K.IntProgress)]
            texts = [x for x in inside if isinstance(x, K.HTML) and "objective" in str(x.value)]
            require(len(bars) == 1 and texts, "spect:widgets", "no progress bar or no text on display")
            cells = [dict((a.strip(), b.strip()) for a, b in self.CELL.findall(str(v))) for x in texts for v in x.seen if "objective" in str(v)]
            for c in cells:
                require(set(c) >= {"optimizer", "runtime", "evaluation", "objective", "||gradient||", "status"}, "spect:cells", lambda: "the display shows %r" % c)
                require(parse_time(c["runtime"])[1] is not None, "spect:format", lambda: "malformed runtime %r" % c["runtime"])
                float(c["objective"]), float(c["||gradient||"]), int(c["evaluation"])
            last = cells[-1]
            sec, res = parse_time(last["runtime"])
            if elapsed is not None and elapsed >= 0 and sec is not None:
                require(sec - 0.011 <= elapsed < sec + res + 0.011, "spect:runtime", lambda: "shown runtime %r, the clock ran %r s" % (last["runtime"], elapsed))
            require(w.closed == (self.nb == "clear"), "spect:closed", lambda: "the display is %s although clear_after_finish is %r" % ("closed" if w.closed else "open", self.nb == "clear"))
            if len(runs) == len(K.SHOWN):
                r = next(done)
                require(last["status"] == str(r.status).strip() and last["optimizer"] == r.opt_name, "spect:shown", lambda: "shown %r, the record is %r, %r" % (last, r.status, r.opt_name))
                if not w.closed:
                    require(bars[0].bar_style in ("success", "warning", "danger") and (bars[0].bar_style == "success") == ("conv" in str(r.status).lower()), "spect:bar",
                            lambda: "the bar says %r, the run ended with %r" % (bars[0].bar_style, r.status))
            self.sim.probe("notebook displays")

    def displays(self, text, elapsed=None):
        n_run = len(re.findall(r"^Running .* Code:", text, re.M))
        times = re.findall(r"^Runtime:\s*(\S+)\s*$", text, re.M)
        status = re.findall(r"^Optimization status: (.*)$", text, re.M)
        require(n_run == len(times) == len(status) and (elapsed is None or n_run <= 1), "spect:output", lambda: "%d headers, %d runtimes, %d status lines" % (n_run, len(times), len(status)))
        for t in times:
            sec, res = parse_time(t)
            require(res is not None, "spect:format", lambda: "malformed runtime %r" % t)
            if sec is None or elapsed is None or elapsed < 0:
                continue
            self.sim.probe("runtime compared")
            require(sec - 0.011 <= elapsed < sec + res + 0.011, "spect:runtime", lambda: "printed runtime %r = %r s, the clock ran %r s" % (t, sec, elapsed))
        for part in re.split(r"[\r\n]+", text):
            if not part.strip() or re.match(r"^(Running |Runtime:|Optimization |Warning|  runtime|WARNING|updates were|nothing|The max_f_eval|\s+NIT|\s+NF)", part) or "tnc: " in part:
                continue
            g = PROGRESS.match(part)
            require(g, "spect:line", lambda: "malformed progress line %r" % part)
            sec, res = parse_time(g.group(1))
            require(res is not None, "spect:format", lambda: "malformed runtime %r in a progress line" % g.group(1))


class _NoLog(object):
    log, allfired = (), ()

    def __init__(self, faults):
        self.faults = faults
