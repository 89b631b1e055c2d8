"""Threads asking for, holding, copying, saving and dropping constraint objects, interleaved inside the library (C19)."""
import copy, gc, pickle, fractions
import numpy as np
from .core import require, InjectedFault
from . import seams, sched
from .threads import schedule, hot

PLAIN = ["Logexp", "NegativeLogexp", "Exponent", "NegativeExponent", "Square"]
LIMITS = [(0.0, 1.0), (0.0, 2.0), (-1.0, 1.0), (-2.0, 5.0), (0.5, 0.75), (0.0, float(np.nextafter(1.0, 2.0))), (float(np.nextafter(0.0, 1.0)), 1.0),
          (1e-9, 1.0), (0.1, 0.3), (1.0 / 3.0, 2.0), (-1.0, 0.0), (1e-6, 1e6), (1.0, 2.0), (float(np.float32(0.1)), 1.0), (-1.0, 1.0 + 1e-12)]
SIZE = 4


def alive_key(o):
    return (type(o).__name__,) + ((o.lower, o.upper) if hasattr(o, "lower") else ())


def number(x, style):
    """the same number, the way different callers write it"""
    if style == 1 and float(x).is_integer():
        return int(x)
    if style == 2:
        return np.float64(x)
    if style == 3 and float(np.float32(x)) == x:
        return np.float32(x)
    if style == 4:
        return fractions.Fraction(x)
    if style == 5 and float(x).is_integer():
        return np.int64(x)
    if style == 6:
        return np.float64(x)[()]
    return x


class Shared(object):
    """what is in use, by thread; only touched between scheduling points"""
    def __init__(self, n, sim):
        self.holds = [[] for _ in range(n)]
        self.models = [[] for _ in range(n)]
        self.sim = sim

    def objects(self):
        for h in self.holds:
            for o in h:
                yield o
        for ms in self.models:
            for m in ms:
                for c in m.inuse:
                    yield c

    def one(self, o, key, how):
        """o was handed out for key"""
        self.sim.checks += 1
        require(type(o).__name__ == key[0], "constraint:kind", lambda: "%s for %s gave a %s" % (how, key, type(o).__name__))
        if len(key) > 1:
            require(o.lower == key[1] and o.upper == key[2], "constraint:bounds", lambda: "%s for %s gave bounds %r, %r" % (how, key, o.lower, o.upper))
            require(getattr(o, "difference", None) == key[2] - key[1], "constraint:half made", lambda: "%s for %s gave difference %r" % (how, key, getattr(o, "difference", None)))
        for q in self.objects():
            k = alive_key(q)
            if q is o:
                require(k == key, "constraint:changed", lambda: "%s for %s gave the constraint in use for %s" % (how, key, k))
            else:
                require(k != key, "constraint:two", lambda: "%s for %s gave another constraint than the one in use" % (how, key))


class Held(object):
    """a model of one thread, with what each scalar should be constrained by"""
    def __init__(self, m, cons):
        self.m, self.cons, self.inuse = m, cons, []


class Worker(object):
    def __init__(self, t, ops, shared, sim):
        import paramz
        from . import thzoo
        self.Z, self.T, self.paramz = thzoo, paramz.transformations, paramz
        self.t, self.ops, self.sh, self.sim = t, ops, shared, sim
        self.holds, self.models = shared.holds[t], shared.models[t]
        self.saved = []

    def run(self):
        for o in self.ops:
            self.sim.op(o["op"])
            getattr(self, "op_" + o["op"])(o)
            self.sim.ev("  thread", self.t, o["op"], o.get("key"))

    def make(self, key, style=0):
        if len(key) == 1:
            return getattr(self.T if hasattr(self.T, key[0]) else self.Z, key[0])()
        cls = self.T.Logistic if key[0] == "Logistic" else getattr(self.Z, key[0])
        lo, up = number(key[1], style % 7), number(key[2], (style // 7) % 7)
        return cls(lo, up) if style % 2 else cls(lower=lo, upper=up)

    # ---- bare constraint objects
    def op_request(self, o):
        key = tuple(o["key"])
        c = self.make(key, o["style"])
        self.sh.one(c, key, "a request")
        if o["keep"]:
            self.holds.append(c)

    def hold(self, o):
        return self.holds[o["i"] % len(self.holds)] if self.holds else None

    def op_clone(self, o):
        h = self.hold(o)
        if h is None:
            return
        key = alive_key(h)
        how = o["style"] % 8
        c = copy.copy(h) if how == 0 else copy.deepcopy(h) if how == 1 else pickle.loads(pickle.dumps(h, how - 2))
        self.sh.one(c, key, ["copy", "deepcopy"][how] if how < 2 else "pickle protocol %d" % (how - 2))
        if o["keep"]:
            self.holds.append(c)

    def op_save(self, o):
        h = self.hold(o)
        if h is not None:
            self.saved.append((alive_key(h), pickle.dumps([h, h], o["style"] % 6)))

    def op_load(self, o):
        if self.saved:
            key, data = self.saved[o["i"] % len(self.saved)]
            a, b = pickle.loads(data)
            require(a is b, "constraint:two", "one constraint saved twice in a pickle came back as two")
            self.sh.one(a, key, "loading")
            if o["keep"]:
                self.holds.append(a)

    def op_take(self, o):
        other = self.sh.holds[o["i"] % len(self.sh.holds)]
        if other:
            self.holds.append(other[o["style"] % len(other)])

    def op_drop(self, o):
        if self.holds:
            del self.holds[o["i"] % len(self.holds)]

    def op_dropall(self, o):
        del self.holds[:]

    def op_gc(self, o):
        gc.collect()

    def op_reject(self, o):
        lo, up = o["key"][1:] if len(o["key"]) > 1 else (0.0, 1.0)
        lo, up = (up, lo) if o["style"] % 3 else (up, up)
        if o["style"] % 7 == 6:
            lo = float("nan")
        c = None
        try:
            c = self.T.Logistic(lo, up) if o["style"] % 2 else self.Z.TMine(lo, up)
        except Exception as e:
            self.sim.fault("rejected bounds")
            if o["keep"]:
                self.kept = e           # with its traceback, and what that refers to
        require(c is None, "constraint:accepted", lambda: "bounds %r, %r were accepted" % (lo, up))

    def op_fussy(self, o):
        """a constraint of the user whose construction fails half way"""
        key = ("TFussy",) + (tuple(o["key"][1:]) if len(o["key"]) > 1 else (0.0, 1.0))
        self.Z.TFussy.fail.add(self.t)
        try:
            c = self.Z.TFussy(key[1], key[2], self.t)
        except InjectedFault as e:
            self.sim.fault("construction fails")
            if o["keep"]:
                self.kept = e
        finally:
            self.Z.TFussy.fail.discard(self.t)
        c = self.Z.TFussy(key[1], key[2], self.t)
        self.sh.one(c, key, "a request after a failed one")
        if o["style"] % 2:
            self.holds.append(c)

    def op_use(self, o):
        h = self.hold(o)
        if h is not None:
            x = np.linspace(-3, 3, 7)
            y = np.asarray(h.f(x))
            if hasattr(h, "lower"):
                lo, up = h.lower, h.upper
                ref = lo + (up - lo) / (1 + np.exp(-x))
                require(np.allclose(y, ref, rtol=1e-12, atol=1e-300), "constraint:use", lambda: "%s maps %r to %r" % (alive_key(h), x, y))

    # ---- constraints in models
    def op_build(self, o):
        if len(self.models) >= 4:
            del self.models[0]
        m = self.Z.TModel("m", 1)
        m.link_parameter(self.paramz.Param("p", np.linspace(0.55, 0.7, SIZE)))
        self.models.append(Held(m, [None] * SIZE))

    def held(self, o):
        return self.models[o["i"] % len(self.models)] if self.models else None

    def rng(self, o):
        a = o["lo"] % SIZE
        return a, max(a + 1, o["hi"] % (SIZE + 1))

    def sel(self, h, o):
        a, b = self.rng(o)
        return (h.m.p if (a, b) == (0, SIZE) else h.m.p[a:b]), a, b

    def op_bound(self, o):
        h = self.held(o)
        if h is None:
            return
        key = tuple(o["key"])
        p, a, b = self.sel(h, o)
        if key[0] == "Logistic":
            p.constrain_bounded(number(key[1], o["style"] % 7), number(key[2], o["style"] // 7 % 7), warning=False)
        elif key[0] == "Logexp" and o["style"] % 2:
            p.constrain_positive(warning=False)
        elif key[0] == "NegativeLogexp" and o["style"] % 2:
            p.constrain_negative(warning=False)
        else:
            c = self.make(key, o["style"])
            p.constrain(c, warning=False)
        h.cons[a:b] = [key] * (b - a)
        self.look(h, "constraining by %s" % (key,))

    def op_unbound(self, o):
        h = self.held(o)
        if h is None:
            return
        on = sorted(set(k for k in h.cons if k is not None))
        key = on[o["style"] // 49 % len(on)] if on and o["keep"] else tuple(o["key"])
        p, a, b = self.sel(h, o)
        if key[0] == "Logistic":
            p.unconstrain_bounded(number(key[1], o["style"] % 7), number(key[2], o["style"] // 7 % 7))
        elif key[0] == "Logexp" and o["style"] % 2:
            p.unconstrain_positive()
        elif key[0] == "NegativeLogexp" and o["style"] % 2:
            p.unconstrain_negative()
        else:
            p.unconstrain(self.make(key, o["style"]))
        for i in range(a, b):
            if h.cons[i] == key:
                h.cons[i] = None
        self.look(h, "unconstraining by %s" % (key,))

    def op_badbound(self, o):
        h = self.held(o)
        if h is None:
            return
        lo, up = o["key"][1:] if len(o["key"]) > 1 else (0.0, 1.0)
        p, a, b = self.sel(h, o)
        ok = False
        try:
            p.constrain_bounded(up, lo if o["style"] % 2 else up, warning=False)
            ok = True
        except Exception:
            self.sim.fault("rejected bounds")
        require(not ok, "constraint:accepted", "reversed bounds were accepted by a parameter")
        self.look(h, "rejected bounds")

    def op_mcopy(self, o):
        h = self.held(o)
        if h is None:
            return
        how = o["style"] % 8
        m = h.m.copy() if how == 0 else copy.deepcopy(h.m) if how == 1 else pickle.loads(pickle.dumps(h.m, how - 2))
        n = Held(m, list(h.cons))
        if len(self.models) >= 4:
            del self.models[0]
        self.models.append(n)
        self.look(n, "copying (%d)" % how)

    def op_msave(self, o):
        h = self.held(o)
        if h is not None:
            self.msaved = (pickle.dumps(h.m, o["style"] % 6), list(h.cons))
            if not o["keep"]:
                self.models.remove(h)

    def op_mload(self, o):
        if getattr(self, "msaved", None) is not None and len(self.models) < 4:
            h = Held(pickle.loads(self.msaved[0]), list(self.msaved[1]))
            self.models.append(h)
            self.look(h, "loading")

    def op_mdrop(self, o):
        if self.models:
            del self.models[o["i"] % len(self.models)]

    def look(self, h, how):
        got = [None] * SIZE
        keys, objs = {}, []
        for c, idx in h.m.p.constraints.items():
            if not hasattr(c, "f"):
                continue
            k = alive_key(c)
            idx = [int(i) for i in np.asarray(idx).ravel()]
            if not idx:
                continue
            require(k not in keys, "constraint:split", lambda: "%s is on the parameter as two constraints after %s" % (k, how))
            keys[k] = c
            objs.append(c)
            for i in idx:
                require(got[i] is None, "constraint:double", lambda: "entry %d has two constraints after %s" % (i, how))
                got[i] = k
        require(got == h.cons, "constraint:model", lambda: "after %s entries are constrained by %s, not by %s" % (how, got, h.cons))
        h.inuse = objs
        for k, c in keys.items():
            self.sh.one(c, k, how)
        self.sim.state(tuple(got))


OPS = dict(request=10, clone=5, save=1, load=2, take=1, drop=6, dropall=1, gc=2, reject=3, fussy=1, use=2,
           build=3, bound=7, unbound=6, badbound=2, mcopy=3, msave=2, mload=2, mdrop=2)


class ConstraintScenario(object):
    shrink_lists = (("sched",), ("hot", 3), ("progs", 0), ("progs", 1), ("progs", 2), ("progs", 3))

    def __init__(self, prop="C19"):
        self.prop = prop

    def prepare(self):
        import logging
        logging.getLogger("paramz").setLevel(logging.CRITICAL)

    def generate(self, rng, tier):
        n = rng.choice([1, 2, 2, 2, 3, 4])
        pool = [["Logistic"] + list(rng.choice(LIMITS)) for _ in range(rng.randint(1, 5))] + [["TMine"] + list(rng.choice(LIMITS)) for _ in range(rng.randint(0, 2))]
        pool += [["TMine"] + k[1:] for k in pool if rng.random() < 0.3]
        pool += [[k] for k in rng.sample(PLAIN, rng.randint(0, 2))] + ([["TPlain"]] if rng.random() < 0.2 else [])
        bare = ["request", "clone", "drop", "gc", "dropall", "reject"]
        names = bare if rng.random() < 0.4 else sorted(OPS)
        ws = [OPS[k] for k in names]
        progs = []
        for _ in range(n):
            ops = [dict(op="build")] if "build" in names and rng.random() < 0.8 else []
            for _ in range(rng.randint(3, 40 if tier == "thorough" else 24)):
                ops.append(dict(op=rng.choices(names, ws)[0]))
            for o in ops:
                o.update(i=rng.randrange(12), style=rng.randrange(7 * 7 * 5), keep=rng.random() < 0.6, key=rng.choice(pool), lo=rng.choice([0, 0, 0, 1, 2]), hi=rng.choice([4, 4, 4, 2, 3]))
            progs.append(ops)
        if rng.random() < 0.3:
            progs = [copy.deepcopy(progs[0]) for _ in range(n)]
        opc = rng.random() < 0.5
        return dict(progs=progs, sched=schedule(rng, n, 900 if opc else 200) if n > 1 else [], opcodes=opc, hot=hot(rng) if n > 1 else None, steps=[])

    def execute(self, plan, sim):
        from . import thzoo
        thzoo.TFussy.fail = set()
        sh = Shared(len(plan["progs"]), sim)
        ws = [Worker(t, ops, sh, sim) for t, ops in enumerate(plan["progs"])]
        sim.current = "threads"
        s = sched.Sched(sim, plan["sched"], plan["opcodes"], plan.get("hot"))
        seams.install_locks()       # locks the library makes from now on are ours too
        try:
            s.run([w.run for w in ws])
        finally:
            seams.uninstall_lock_names()
        sim.ev("points", s.points, "switches", s.switches)
        sim.probe("scheduling points", s.points)

    def cleanup(self):
        seams.SCHED[0] = None
        from . import thzoo
        thzoo.TFussy.fail = set()
        gc.collect()
