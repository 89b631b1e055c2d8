"""Observer scenario (C06): registries under re-entrant changes, deaths and raising callbacks, against a list model."""
import gc, operator, weakref
import numpy as np
from .core import Violation, InjectedFault, InjectedInterrupt, require

EXC = dict(fault=InjectedFault, value=ValueError, key=KeyError, interrupt=InjectedInterrupt)
PRIOS = [0, 0, 0, 1, 5, -1, -50, 100, 0.5, 5, -150]
SUBJECTS = ["plain", "array", "array2", "leaf", "node", "root", "ints", "text"]
INPLACE = [(operator.iadd, 1), (operator.isub, 2), (operator.imul, 2), (operator.ifloordiv, 3), (operator.imod, 7), (operator.ipow, 1), (operator.itruediv, 2.0), (operator.imatmul, 0)]
BITS = [(operator.ilshift, 1), (operator.irshift, 1), (operator.ixor, 3), (operator.ior, 1), (operator.iand, 7)]
TREE = ("leaf", "node", "root")


class Watcher(object):
    """An observer that is equal to every other one: the library has to tell observers apart by identity."""
    def __init__(self, world, oid, eq):
        self.world, self.oid, self.eq = world, oid, eq

    def cb0(self, me, which=None):
        self.world.called(self.oid, 0, me, which)

    def cb1(self, me, which=None):
        self.world.called(self.oid, 1, me, which)

    def __eq__(self, other):
        return self.eq or self is other

    def __ne__(self, other):
        return not self == other

    __hash__ = object.__hash__


class Falsy(object):
    """A callable object that counts as false (an empty log, say)."""
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, me, which=None):
        self.fn(me, which=which)

    def __len__(self):
        return 0


class Frame(object):
    def __init__(self, snaps):
        self.snap = snaps              # subject -> [registration]
        self.calls = {}                # subject -> [key]
        self.touched = set()           # (subject, key)
        self.added = {}
        self.complete = True


class World(object):
    def __init__(self, sim, plan):
        import paramz
        from paramz.core.observable import Observable
        from paramz.core.observable_array import ObsAr
        self.sim, self.plan = sim, plan
        self.subj = dict(plain=Observable(), array=ObsAr(np.arange(4.)), array2=ObsAr(np.zeros((2, 2))), ints=ObsAr(np.arange(4)).astype(int), text=ObsAr(["a", "b", "c"]))
        root, node = paramz.Parameterized("root"), paramz.Parameterized("node")
        leaf = paramz.Param("leaf", np.ones(3))
        root.link_parameter(node)
        node.link_parameter(leaf)
        self.subj.update(leaf=leaf, node=node, root=root)
        self.on = {s: True for s in SUBJECTS}
        self.reg = {s: [] for s in SUBJECTS}        # ordered as delivered: (key, priority)
        self.obs, self.fns, self.refs = {}, {}, {}
        self.nobs = 0
        self.frames = []
        self.count = 0
        self.acts, self.fault = {}, None
        self.raised = None
        self.depth = 0
        self.zombies = set()

    # ---- observers
    def new(self, kind):
        self.nobs += 1
        oid = self.nobs
        if kind == "array":
            from paramz.core.observable_array import ObsAr
            o = ObsAr(np.zeros(2))
        else:
            o = Watcher(self, oid, kind == "equal")
        self.obs[oid] = o
        self.refs[oid] = weakref.ref(o)
        w = self
        self.fns[oid] = [(lambda me, which=None, k=k: w.called(oid, k, me, which)) for k in (2, 3)]
        if oid % 3 == 0:
            self.fns[oid] = [Falsy(f) for f in self.fns[oid]]

    def callable(self, oid, k):
        o = self.obs[oid]
        if k < 2 and isinstance(o, Watcher):
            return (o.cb0, o.cb1)[k], k
        return self.fns[oid][k % 2], 2 + k % 2

    # ---- seam: every callback of an observer
    def called(self, oid, k, me, which):
        n = self.count
        self.count += 1
        key = (oid, k)
        s = self.subject_of(me)
        self.sim.ev("   call", s, key, "of", self.subject_of(which) if which is not None else None)
        self.sim.choice("call", s, key)
        f = next((f for f in reversed(self.frames) if s in f.snap), None)
        require(f is not None, "observer:foreign", lambda: "%r of %s was called though nothing there changed" % (key, s))
        f.calls.setdefault(s, []).append(key)
        exp = f.which
        require(exp is None or which is exp or self.subject_of(which) == self.subject_of(exp), "observer:wrong-object", lambda: "%r was told that %r changed, it was %s" % (key, type(which), self.subject_of(exp)))
        for a in self.acts.get(str(n), []):
            if self.depth < 3:
                self.sim.fault("re-entrant " + a["op"])
                self.step(a, nested=True)
        if self.fault and self.fault["n"] == n:
            self.raised = EXC[self.fault["exc"]]("from observer %r" % (key,))
            self.sim.fault("observer raises " + self.fault["exc"])
            raise self.raised

    def subject_of(self, x):
        for s, o in self.subj.items():
            if x is o:
                return s
        for s, o in self.subj.items():
            if isinstance(o, np.ndarray) and isinstance(x, np.ndarray) and np.shares_memory(x, o):
                return s
        return "?"

    # ---- operations
    def step(self, st, nested=False):
        op = st["op"]
        sim = self.sim
        sim.op(op)
        if not nested:
            sim.current = op
        live = sorted(self.obs)
        if op == "new":
            if len(live) < 9:
                self.new(st["kind"])
            return
        s = SUBJECTS[st.get("s", 0) % len(SUBJECTS)]
        subj = self.subj[s]
        if op in ("add", "remove", "chprio", "kill") and not live:
            return
        if op == "add":
            oid = live[st["o"] % len(live)]
            c, k = self.callable(oid, st["k"] % 4)
            p = PRIOS[st["p"] % len(PRIOS)]
            if p == 0 and st["p"] % 2:
                subj.add_observer(self.obs[oid], c)
            else:
                subj.add_observer(self.obs[oid], c, p)
            self.insert(s, (oid, k), p)
            sim.ev("add", s, (oid, k), p)
        elif op == "remove":
            oid = live[st["o"] % len(live)]
            if st["k"] % 5 == 4:
                subj.remove_observer(self.obs[oid])
                hit = [r for r in self.reg[s] if r[0][0] == oid]
            else:
                c, k = self.callable(oid, st["k"] % 4)
                subj.remove_observer(self.obs[oid], c)
                hit = [r for r in self.reg[s] if r[0] == (oid, k)]
            for r in hit:
                self.touch(s, r[0])
            self.reg[s] = [r for r in self.reg[s] if not any(r is h for h in hit)]
            sim.ev("remove", s, oid, len(hit))
        elif op == "chprio":
            oid = live[st["o"] % len(live)]
            c, k = self.callable(oid, st["k"] % 4)
            p = PRIOS[st["p"] % len(PRIOS)]
            subj.change_priority(self.obs[oid], c, p)
            for r in self.reg[s]:
                if r[0] == (oid, k):
                    self.touch(s, r[0])
            self.reg[s] = [r for r in self.reg[s] if r[0] != (oid, k)]
            self.insert(s, (oid, k), p)
            sim.ev("chprio", s, (oid, k), p)
        elif op == "kill":
            oid = live[st["o"] % len(live)]
            for t in SUBJECTS:
                for r in self.reg[t]:
                    if r[0][0] == oid:
                        self.touch(t, r[0])
            del self.obs[oid]
            if self.refs[oid]() is None:
                self.bury(oid)
            else:               # one of its own callbacks is still running
                self.zombies.add(oid)
            sim.fault("observer dies")
            sim.ev("kill", oid)
            if not nested:
                self.check_dead()
        elif op == "updates":
            if s in TREE:
                return
            self.on[s] = bool(st["on"])
            subj.set_updates(self.on[s])
            sim.ev("updates", s, self.on[s])
        elif op == "notify":
            self.notify(s, subj, st, nested)

    def bury(self, oid):
        self.zombies.discard(oid)
        for t in SUBJECTS:
            self.reg[t] = [r for r in self.reg[t] if r[0][0] != oid]

    def insert(self, s, key, p):
        i = 0
        for i, r in enumerate(self.reg[s] + [None]):
            if r is None or p > r[1]:
                break
        self.reg[s].insert(i, (key, p))
        for f in self.frames:
            f.touched.add((s, key))
            f.added[(s, key)] = f.added.get((s, key), 0) + 1

    def touch(self, s, key):
        for f in self.frames:
            f.touched.add((s, key))

    def check_dead(self):
        for oid in sorted(self.zombies):
            self.bury(oid)
        gone = [oid for oid in self.refs if oid not in self.obs]
        alive = [oid for oid in gone if self.refs[oid]() is not None]
        if alive:
            gc.collect()
        for oid in gone:
            require(self.refs[oid]() is None, "observer:kept-alive", lambda: "observer %d is still alive though nobody but the registry knows it" % oid)
            del self.refs[oid]

    def notify(self, s, subj, st, nested):
        how, minp, which = st["how"] % 5, None, None
        isarr = isinstance(subj, np.ndarray)
        tree = s in TREE
        if tree:
            subs = TREE[TREE.index(s):]
        else:
            subs = (s,)
        if how == 0 or (not isarr and not tree) or (s in ("node", "root")):
            if st.get("minp") is not None:
                minp = PRIOS[st["minp"] % len(PRIOS)]
                subs = (s,)
                if tree:
                    minp = max(minp, -1)        # the library's own registrations stay out of it
            fn = lambda: subj.notify_observers(None, minp) if minp is not None else subj.notify_observers()
            if st["how"] % 7 == 3 and not tree:
                fn = lambda: subj.notify_observers(which=self.subj["array2"], min_priority=minp)
                which = self.subj["array2"]
        elif how == 1:
            fn = lambda: subj.__setitem__(slice(None), "d" if s == "text" else 1.5)
        elif how == 2 and s != "text":
            ops = BITS + INPLACE[:6] if s == "ints" else INPLACE[:8 if s == "array2" else 7]
            op, v = ops[st["how"] // 5 % len(ops)]
            if op is operator.imatmul:
                v = np.array([[0., 1.], [1., 0.]])

            def fn():
                with np.errstate(all="ignore"):
                    op(subj, v)             # gives a plain array back, as documented
        elif how == 3:
            fn = lambda: subj[0:1].__setitem__(Ellipsis, "e" if s == "text" else 2.0)
        else:
            fn = lambda: subj.__setitem__(tuple([0] * subj.ndim), "f" if s == "text" else 3.0)
        on = self.on[s]
        f = Frame({t: ([r for r in self.reg[t] if minp is None or r[1] > minp] if on else []) for t in subs})
        f.which = which if which is not None else subj
        f.touched = {(t, r[0]) for t in subs for r in self.reg[t] if r[0][0] in self.zombies}
        self.frames.append(f)
        self.depth += 1
        sim = self.sim
        sim.ev("notify", s, how, minp, on)
        try:
            fn()
        except BaseException as e:
            if e is not self.raised:
                raise
            f.complete = False
            for g in self.frames:
                g.complete = False
            if nested:
                raise
            e.__traceback__ = None
        finally:
            self.frames.pop()
            self.depth -= 1
        sim.checks += 1
        for t in subs:
            calls = f.calls.get(t, [])
            snap = [r[0] for r in f.snap[t]]
            d = lambda: "notifying %s (min priority %r, updates %r): registered were %r, called %r, touched meanwhile %r" % (t, minp, on, f.snap[t], calls, sorted(f.touched))
            for k in set(calls):
                lim = snap.count(k) + f.added.get((t, k), 0)
                require(calls.count(k) <= lim, "observer:extra-call", d)
            want = [k for k in snap if (t, k) not in f.touched]
            got = [k for k in calls if (t, k) not in f.touched]
            if f.complete:
                require(sorted(want) == sorted(got), "observer:missed-call", d)
                require(want == got, "observer:order", d)
            else:
                require(got == want[:len(got)], "observer:order", d)
        sim.state(tuple((t, tuple(r[1] for r in self.reg[t])) for t in SUBJECTS), len(self.obs))


class ObserverScenario(object):
    def generate(self, rng, tier):
        R = lambda: rng.randrange(10 ** 6)
        focus = [rng.randrange(len(SUBJECTS)) for _ in range(rng.choice([1, 1, 2, 6]))]
        S = lambda: rng.choice(focus)

        def one(op, depth=0):
            s = dict(op=op)
            if op == "new":
                s["kind"] = rng.choice(["own", "own", "equal", "array"])
            elif op in ("add", "chprio"):
                s.update(s=S(), o=R(), k=R(), p=R())
            elif op == "remove":
                s.update(s=S(), o=R(), k=R())
            elif op == "kill":
                s.update(o=R())
            elif op == "updates":
                s.update(s=S(), on=rng.random() < 0.6)
            elif op == "notify":
                s.update(s=S(), how=R())
                if rng.random() < 0.3:
                    s["minp"] = R()
            return s
        steps = [one("new") for _ in range(rng.randint(1, 4))] + [one("add") for _ in range(rng.randint(0, 5))]
        ops = ["new", "add", "remove", "chprio", "kill", "updates", "notify"]
        ws = [2, 8, 3, 3, 2, 1, 10]
        for _ in range(rng.randint(4, 40 if tier == "thorough" else 22)):
            s = one(rng.choices(ops, ws)[0])
            if s["op"] == "notify":
                s["acts"] = {}
                for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                    a = one(rng.choices(["add", "remove", "chprio", "kill", "notify", "new"], [5, 5, 3, 4, 4, 1])[0])
                    s["acts"].setdefault(str(rng.randrange(6)), []).append(a)
                if rng.random() < 0.2:
                    s["fault"] = dict(n=rng.randrange(6), exc=rng.choice(sorted(EXC)))
            steps.append(s)
        return dict(steps=steps)

    def execute(self, plan, sim):
        w = World(sim, plan)
        for st in plan["steps"]:
            w.count = 0
            w.acts, w.fault, w.raised = st.get("acts", {}), st.get("fault"), None
            w.step(st)
            w.acts, w.fault, w.raised = {}, None, None
            w.check_dead()
        for i, s in enumerate(SUBJECTS):        # whatever happened, the next change is delivered in full
            w.count = 0
            sim.current = "final notify"
            if not w.on[s]:
                w.subj[s].set_updates(True)
                w.on[s] = True
            w.step(dict(op="notify", s=i, how=1))
