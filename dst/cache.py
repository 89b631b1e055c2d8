"""Cache scenario (C08 results are never stale or foreign, C09 caching is economical and leaves nothing behind).

The cached functions, the arrays and the owners are the application; re-entrant actions and failures inside the functions,
garbage collection points and an address allocator that re-uses freed addresses at once are the simulated environment.
"""
import gc, weakref
import numpy as np
from .core import Violation, InjectedFault, InjectedInterrupt, require

EXC = dict(fault=InjectedFault, value=ValueError, key=KeyError, interrupt=InjectedInterrupt)
NUMS = [1, 2, 2.5, 1000.25, -7, True, -1, -2, 1.0, 0.0, -0.0, 10 ** 20, 1e20, 1 + 0j, np.float64(2.5)]
LITS = [None, None, NUMS[1], NUMS[2], "x"]
STRS = ["x", "y", "longer string", ""]


class Addresses(object):
    """Stands in for id(): objects get small addresses, and an address is handed out again as soon as its object is gone."""
    def __init__(self):
        self.by_real, self.used = {}, {}
        self.reused = 0
        self.ever = set()

    def __call__(self, obj):
        r = id(obj)
        e = self.by_real.get(r)
        if e is not None and e[0]() is obj:
            return e[1]
        try:
            ref = weakref.ref(obj)
        except TypeError:
            return r
        n = 16
        while n in self.used and self.used[n]() is not None:
            n += 16
        if n in self.ever:
            self.reused += 1
        self.ever.add(n)
        self.used[n] = ref
        self.by_real[r] = (ref, n)
        return n


class Result(object):
    __slots__ = ("content", "__weakref__")

    def __init__(self, content):
        self.content = content


class PlainOwner(object):
    pass


class Fn(object):
    """One cached function: how it is called and what the reference expects of its cache."""
    def __init__(self, i, kind, limit, ignore, force):
        self.i, self.kind, self.limit, self.ignore, self.force = i, kind, limit, ignore, force
        self.entries = {}       # key -> dict(enter, valid, args, token)
        self.clock = 0
        self.on = True
        self.results = []       # weak references to results computed while caching was on
        self.execs = 0

    def clear(self):
        self.entries = {}

    def others_since(self, key):
        e = self.entries[key]
        return sum(1 for k, o in self.entries.items() if k != key and o["enter"] > e["enter"])

    def trim(self):
        for k in [k for k in self.entries if self.others_since(k) >= self.limit]:
            del self.entries[k]


class World(object):
    def __init__(self, sim, plan, groups):
        import paramz
        from paramz import Param, Parameterized
        from paramz.caching import Cacher, Cache_this
        from paramz.core.observable_array import ObsAr
        self.sim, self.plan, self.groups = sim, plan, groups
        self.ObsAr, self.paramz = ObsAr, paramz
        self.pool = []          # (object, base tag)
        self.tags = {}
        self.dropped = []       # (weakref, [tags])
        self.fns, self.stack = [], []
        self.acts, self.fault, self.nexec = {}, None, 0
        self.raised = None
        self.depth = 0
        w = self

        def body(fn_i):
            def f(a, b=None, k=1, s="x", force=None):
                return w.body(fn_i, None, (a, b, k, s))
            return f

        class Owner(Parameterized):
            pass

        root, node = Parameterized("root"), Parameterized("node")
        l1, l2 = Param("l1", np.arange(3.) + 1), Param("l2", np.arange(2.) + 1)
        root.link_parameter(node)
        node.link_parameters(l1, l2)
        self.root, self.tree = root, dict(root=root, node=node, l1=l1, l2=l2)
        for n in plan["pool"]:
            self.make(n)
        for i, c in enumerate(plan["fns"]):
            kind, limit, ignore = c["kind"], c["limit"], tuple(c["ignore"])
            force = ("force",) if c.get("force") else ()
            fn = Fn(i, kind, limit, ignore, force)
            fn.owner = None
            if kind == "plain":
                fn.call = fn.cacher = Cacher(body(i), limit=limit, ignore_args=ignore, force_kwargs=force)
            elif kind == "bound":
                cls = type("Bound%d" % i, (Owner if c.get("par") else PlainOwner,),
                           dict(meth=lambda self, a, b=None, k=1, s="x", force=None, i=i: w.body(i, self, (a, b, k, s))))
                o = cls("owner%d" % i) if c.get("par") else cls()
                fn.owner = o
                fn.call = fn.cacher = Cacher(o.meth, limit=limit, ignore_args=ignore, force_kwargs=force)
            else:
                def meth(self, a, b=None, k=1, s="x", force=None, i=i):
                    return w.body(i, self, (a, b, k, s))
                ns = {}
                exec("def meth(self, a, b=None, k=1, s='x', force=None):\n    return run(self, (a, b, k, s))", dict(run=lambda self, t, i=i: w.body(i, self, t)), ns)
                dec = Cache_this(limit=limit, ignore_args=ignore, force_kwargs=force)(ns["meth"])
                cls = type("Deco%d" % i, (Owner,), dict(meth=dec))
                o = cls("owner%d" % i)
                p = Param("own", np.arange(2.) + i)
                o.link_parameter(p)
                fn.owner, fn.own = o, p
                fn.call = o.meth
                fn.cacher = None
            self.fns.append(fn)

    # ---- arrays
    def make(self, kind):
        if len(self.pool) > 12:
            return
        if kind in self.tree:
            self.pool.append((self.tree[kind], kind))
            return
        n = len(self.tags)
        tag = "A%d" % n
        self.tags[tag] = n
        a = self.ObsAr(np.arange(4.) + n) if kind != "2d" else self.ObsAr(np.arange(6.).reshape(2, 3) - n)
        self.pool.append((a, tag))

    def arg(self, k):
        return self.pool[k % len(self.pool)]

    def content(self, x):
        if isinstance(x, np.ndarray):
            return ("arr",) + tuple(np.asarray(x, dtype=float).ravel().tolist())
        if isinstance(x, self.paramz.Parameterized):
            return ("tree",) + tuple(np.asarray(x.param_array, dtype=float).ravel().tolist())
        return (type(x).__name__, repr(x)) if not isinstance(x, list) else tuple(x)

    def touched(self, tag):
        """argument tags that a change of the given one may concern"""
        if tag in ("root", "node", "alltree"):
            return {"root", "node", "l1", "l2"}
        if tag in ("l1", "l2"):
            return {"root", "node", tag}
        return {tag}

    def changed(self, tags):
        for f in self.fns:
            for e in f.entries.values():
                if e["tags"] & tags:
                    e["valid"] = False
        for fr in self.stack:
            if fr["tags"] & tags:
                fr["dirty"] = True

    # ---- the cached functions
    def body(self, i, owner, args):
        fn = self.fns[i]
        n = self.nexec
        self.nexec += 1
        fn.execs += 1
        self.executed.append(i)
        fr = self.stack[-1] if self.stack and self.stack[-1]["fn"] is fn else None
        if fr is not None:
            fr["ran"] += 1
        self.sim.ev("   exec", i, n)
        self.sim.choice("exec", i, n)
        early = self.early.get(str(n))
        val = self.value(fn, owner, args) if early else None
        for a in self.acts.get(str(n), []):
            if self.depth < 3:
                self.sim.fault("inside the function: " + a["op"])
                self.depth += 1
                try:
                    self.step(a)
                finally:
                    self.depth -= 1
        if self.fault and self.fault["n"] == n:
            self.raised = EXC[self.fault["exc"]]("from cached function %d" % i)
            self.sim.fault("function raises " + self.fault["exc"])
            raise self.raised
        r = Result(val if early else self.value(fn, owner, args))
        fn.results.append(weakref.ref(r))
        return r

    def value(self, fn, owner, args):
        shift = 0 if fn.kind != "deco" else 1
        out = [fn.i]
        if fn.kind == "deco":
            out.append(0 if 0 in fn.ignore else self.content(owner))
            out.append(id(owner) if fn.kind != "plain" else 0)
        elif fn.kind == "bound":
            out.append(id(owner))
        for j, a in enumerate(args):
            if j + shift not in fn.ignore:
                out.append(self.content(a))
        return tuple(out)

    # ---- operations
    def step(self, st):
        op, sim = st["op"], self.sim
        sim.op(op)
        sim.current = op
        getattr(self, "op_" + op)(st)

    def op_call(self, st):
        fn = self.fns[st["f"] % len(self.fns)]
        a, ta = self.first(st)
        args, kw = [a], {}
        b, tb = None, None
        if self.has_second(st, fn):
            b, tb = self.second(st)
            if st.get("bkw") and 1 not in fn.ignore and 2 not in fn.ignore:
                kw["b"] = b
                if st.get("akw"):
                    kw = dict(a=args.pop(), b=b)
            else:
                args.append(b)
        k = 1
        if st.get("k") is not None:
            k = NUMS[st["k"] % len(NUMS)]
            if st.get("fresh"):
                k = float(st["k"] % 7) + 0.125      # a new float object each time
            if st.get("kpos") and len(args) == 2:
                args.append(k)
            else:
                kw["k"] = k
        s = "x"
        if st.get("s") is not None:
            s = STRS[st["s"] % len(STRS)]
            if st.get("kpos") and len(args) == 3:
                args.append(s)
            else:
                kw["s"] = s
        forced = False
        if st.get("force") is not None and fn.force:
            kw["force"] = st["force"]
            forced = True
        unc = False
        if st.get("unc") and len(args) < 4:
            s = ["list", "of", st["unc"] % 3]
            kw["s"] = s
            unc = True
        if st.get("swap"):
            kw = dict(sorted(kw.items(), reverse=True))
        # which of the arguments take part
        sh = 1 if fn.kind == "deco" else 0
        tags = {t for j, t in enumerate([ta, tb]) if t is not None and j + sh not in fn.ignore}
        if fn.kind == "deco" and 0 not in fn.ignore:
            tags.add("own%d" % fn.i)
        if fn.kind == "deco":
            full = [fn.owner, a, b, k, s]
            key = tuple((self.key(x)) for j, x in enumerate(full) if j not in fn.ignore)
        else:
            inp = list(args) + [kw[q] for q in sorted(kw)]
            key = tuple(self.key(x) for j, x in enumerate(inp) if j not in fn.ignore) + tuple(sorted(kw)) + (len(args),)
        fr = dict(fn=fn, tags=tags, ran=0, dirty=False, key=key)
        must_hit = False
        cacheable = fn.on and not forced and not unc
        if cacheable and key in fn.entries:
            e = fn.entries[key]
            must_hit = e["valid"] and fn.others_since(key) < fn.limit and not self.stack
        token = object()
        entered = None
        hit_known = False
        if cacheable and not must_hit:
            e = fn.entries.get(key)
            if e is None or fn.others_since(key) >= fn.limit:
                fn.clock += 1
                e = fn.entries[key] = dict(enter=fn.clock, valid=False, tags=tags, args=tuple(id(x) for x in args), token=token)
                entered = e
            e["token"] = token
            e["valid"] = False
        self.stack.append(fr)
        ok = False
        n0 = self.nexec
        try:
            r = fn.call(*args, **kw)
            ok = True
        except BaseException as ex:
            if ex is not self.raised:
                raise
            if cacheable:
                fn.clear()
            else:
                for e in fn.entries.values():
                    e["valid"] = False
            for g in self.stack:
                if g["fn"] is fn:
                    g["lost"] = True
            self.sim.ev("call", fn.i, "raised")
            if self.depth:
                raise
            return
        finally:
            self.stack.pop()
            del a, b, args, kw
        self.sim.ev("call", fn.i, "ran" if fr["ran"] else "hit")
        self.sim.checks += 1
        d = "function %d (%s, limit %d, ignoring %r)" % (fn.i, fn.kind, fn.limit, fn.ignore)
        require(isinstance(r, Result), "cache:foreign", lambda: "%s returned a %s" % (d, type(r).__name__))
        # the contents now
        vals = self.recall(st, fn)
        if vals is not None and not (fr["dirty"] and self.early_used(n0)):
            want = self.value(fn, fn.owner, (vals[0], vals[1], k, s))
            if "fresh" in self.groups:
                if r.content[0] != fn.i or (fn.kind != "plain" and want[2 if fn.kind == "deco" else 1] != r.content[2 if fn.kind == "deco" else 1]):
                    raise Violation("cache:foreign", "%s returned a result of another function or object" % d)
                require(r.content == want, "cache:stale", lambda: "%s returned %r for arguments that now give %r" % (d, r.content, want))
        if "economy" in self.groups:
            if must_hit:
                require(fr["ran"] == 0, "cache:recomputed", lambda: "%s ran again though its arguments %r had not changed and only %d other combinations were computed since" % (d, key, fn.others_since(key)))
            if forced or unc or not fn.on:
                require(fr["ran"] >= 1, "cache:not-computed", lambda: "%s did not run though %s" % (d, "forced" if forced else "an argument cannot be cached" if unc else "caching is off"))
        if cacheable and not must_hit:
            e = fn.entries.get(key)
            if e is not None and e["token"] is token:
                if fr["ran"] == 0:              # a hit the model could not promise
                    if entered is e:
                        del fn.entries[key]
                    # else: it stays where it was, without a promise
                elif fr["ran"] == 1 and not fr["dirty"] and not fr.get("lost"):
                    e["valid"] = True
            fn.trim()
        r = None
        self.note_state()

    def early_used(self, n0):
        return any(str(n) in self.early for n in range(n0, self.nexec))

    def recall(self, st, fn):
        """the arguments of a call again (the pool may have changed inside the function)"""
        if self.pool_version != self.call_version.get(id(st), self.pool_version):
            return None
        return self.first(st)[0], self.second(st)[0] if self.has_second(st, fn) else None

    def has_second(self, st, fn):
        return fn.ignore == (1,) and fn.kind != "deco" or st.get("b") is not None

    def first(self, st):
        return (LITS[st["av"] % len(LITS)], None) if "av" in st else self.arg(st["a"])

    def second(self, st):
        return (LITS[st["bv"] % len(LITS)], None) if "bv" in st else self.arg(st.get("b") or 0)

    def key(self, x):
        if isinstance(x, (np.ndarray, self.paramz.Parameterized)):
            return ("obj", self.serial(x))
        if isinstance(x, list):
            return ("list", id(x))
        if isinstance(x, float) and not any(x is q for q in NUMS):
            return ("fresh", self.sim.n_events)
        return ("val", type(x).__name__, repr(x))

    def serial(self, x):
        e = self.serials.get(id(x))
        if e is None or e[0]() is not x:
            self.nserial += 1
            e = self.serials[id(x)] = (weakref.ref(x), self.nserial)
        return e[1]

    serials, nserial = {}, 0
    pool_version, call_version = 0, {}
    early, executed = {}, []

    def op_change(self, st):
        a, tag = self.arg(st["a"])
        how, v = st["how"] % 7, float(st["v"] % 9)
        if isinstance(a, np.ndarray):
            if how == 0:
                a[:] = v
            elif how == 1:
                a += 1.0
            elif how == 2:
                a[0:1] = v
            elif how == 3:
                a[0:1][...] = v + 0.5
            elif how == 4:
                a[tuple([0] * a.ndim)] = v
            elif how == 5 or a.ndim != 2:
                a *= 2.0
            else:
                a @= np.roll(np.eye(a.shape[1]), 1, axis=0) * 2.0
        else:
            a[:] = np.arange(a.size) + v
        self.changed(self.touched(tag))
        self.sim.ev("change", tag, how)

    def op_tree(self, st):
        how, v = st["how"] % 5, float(st["v"] % 9)
        r = self.root
        if how == 0:
            r[:] = np.arange(r.size) + v
        elif how == 1:
            r.optimizer_array = np.arange(r.size) * 0.5 + v
        elif how == 2:
            r.randomize(rand_gen=lambda size: np.linspace(v, v + 1, size))
        elif how == 3:
            r.update_model(False)
            self.tree["l1"][:] = v
            self.tree["l2"][:] = v + 1
            r.update_model(True)
        else:
            r["node.l1"] = v
        self.changed({"root", "node", "l1", "l2"})
        self.sim.ev("tree", how)

    def op_own(self, st):
        fs = [f for f in self.fns if f.kind == "deco"]
        if not fs:
            return
        f = fs[st["a"] % len(fs)]
        f.own[:] = float(st["v"] % 9)
        self.changed({"own%d" % f.i})

    def op_new(self, st):
        self.make(st["kind"])

    def op_view(self, st):
        a, tag = self.arg(st["a"])
        if isinstance(a, np.ndarray) and len(self.pool) < 12 and len(a) > 1 and tag not in self.tree:
            v = [a[1:], a[:], a[0:1]][st["how"] % 3]
            if isinstance(v, self.ObsAr):
                self.pool.append((v, tag))

    def op_drop(self, st):
        """the application forgets an argument"""
        if len(self.pool) < 2:
            return
        i = st["a"] % len(self.pool)
        o, tag = self.pool[i]
        if tag in self.tree:
            return
        del self.pool[i]
        self.bump()
        self.dropped.append((weakref.ref(o), tag))
        del o
        self.sim.fault("argument dropped")
        if st.get("gc"):
            gc.collect()
        if st.get("again"):
            self.make("1d")

    def bump(self):
        self.pool_version += 1

    def op_gc(self, st):
        gc.collect()
        self.sim.fault("garbage collection")

    def op_reset(self, st):
        fn = self.fns[st["f"] % len(self.fns)]
        c = self.cacher(fn)
        if st.get("whole") and fn.owner is not None and hasattr(fn.owner, "cache"):
            fn.owner.cache.reset()
        elif c is not None:
            c.reset()
        else:
            return
        self.lose(fn)
        self.sim.ev("reset", fn.i)

    def lose(self, fn):
        fn.clear()
        for g in self.stack:
            if g["fn"] is fn:
                g["lost"] = True

    def cacher(self, fn):
        if fn.cacher is not None:
            return fn.cacher
        cs = list(getattr(fn.owner, "cache", {}).values())
        return cs[0] if len(cs) == 1 else None

    def op_switch(self, st):
        fn = self.fns[st["f"] % len(self.fns)]
        on = bool(st["on"])
        c = self.cacher(fn)
        how = st["how"] % 3
        if how == 0 and c is not None:
            c.enable_cacher() if on else c.disable_cacher()
        elif how == 1 and fn.owner is not None and hasattr(fn.owner, "cache"):
            fn.owner.cache.enable_caching() if on else fn.owner.cache.disable_caching()
        elif how == 2 and isinstance(fn.owner, self.paramz.Parameterized):
            fn.owner.enable_caching() if on else fn.owner.disable_caching()
        else:
            return
        fn.on = on
        if not on:
            self.lose(fn)
        self.sim.ev("switch", fn.i, on)

    def op_copy(self, st):
        """a copy of the owner computes from the copy"""
        fs = [f for f in self.fns if f.kind == "deco" or (f.kind == "bound" and isinstance(f.owner, self.paramz.Parameterized))]
        if not fs or self.depth:
            return
        f = fs[st["f"] % len(fs)]
        c = f.owner.copy()
        a, ta = self.arg(st["a"])
        for _ in range(2):
            old = f.owner
            r = c.meth(a)
            if "fresh" in self.groups and f.kind == "deco":
                want = self.value(f, c, (a, None, 1, "x"))
                require(isinstance(r, Result) and r.content == want, "cache:copy", lambda: "the copy of the owner of function %d returned %r, it should be %r" % (f.i, getattr(r, "content", r), want))
            if f.kind == "deco" and len(c.parameters):
                c.parameters[0][:] = float(st["v"] % 5) + 0.25
        del r, c, a
        self.sim.ev("copy", f.i)

    # ---- what is left behind
    def look(self):
        gc.collect()
        if "economy" not in self.groups:
            return
        self.sim.checks += 1
        for f in self.fns:
            f.results = [r for r in f.results if r() is not None]
            n = len(f.results)
            lim = f.limit if f.on else 0
            require(n <= lim, "cache:results-kept", lambda: "%d results of function %d are retained, its limit is %d (caching %s)" % (n, f.i, f.limit, "on" if f.on else "off"))
            require(n <= len(f.entries), "cache:results-kept", lambda: "%d results of function %d are retained, %d combinations were computed since the cache was emptied" % (n, f.i, len(f.entries)))
        used = {tag for o, tag in self.pool}
        for f in self.fns:
            for e in f.entries.values():
                used |= e["tags"]
        for ref, tag in list(self.dropped):
            if ref() is None:
                self.dropped.remove((ref, tag))
            else:
                require(tag in used, "cache:argument-kept", lambda: "an argument nobody uses any more is kept alive though no retained result belongs to it")
        groups = {}
        for o, tag in self.pool:
            if tag not in self.tree:
                groups.setdefault(tag, []).append(o)
        livetags = set()
        for f in self.fns:
            for e in f.entries.values():
                livetags |= e["tags"]
        for tag, os_ in groups.items():
            if tag not in livetags:
                for o in os_:
                    require(len(o.observers) == 0, "cache:registration-kept", lambda: "%d registrations of caches are left on an argument without any cached result" % len(o.observers))

    def note_state(self):
        self.sim.state(tuple((f.on, f.limit, len(f.entries), tuple(e["valid"] for e in f.entries.values())) for f in self.fns), len(self.pool))


class CacheScenario(object):
    def __init__(self, prop):
        self.prop = prop
        self.groups = dict(C08=("fresh",), C09=("economy",))[prop]

    def prepare(self):
        gc.collect()
        gc.freeze()

    def generate(self, rng, tier):
        R = lambda: rng.randrange(10 ** 6)
        fns = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            kind = rng.choice(["plain", "plain", "bound", "deco", "deco"])
            ign = rng.choice([[], [], [], [1]]) if kind != "deco" else rng.choice([[], [], [0], [0], [0, 2]])
            fns.append(dict(kind=kind, limit=rng.choice([1, 1, 2, 2, 3, 4]), ignore=ign, force=rng.random() < 0.4, par=rng.random() < 0.5))
        pool = [rng.choice(["1d", "1d", "2d", "l1", "l2", "node", "root"]) for _ in range(rng.randint(1, 5))]
        lits = rng.random() < 0.5
        wide = rng.random() < 0.1         # caches that keep many results
        if wide:
            for f in fns:
                f["limit"] = rng.choice([5, 6, 7, 8, 12])
        simple = not wide and rng.random() < 0.4       # few distinct calls, so that hits and evictions are frequent

        def call():
            s = dict(op="call", f=R(), a=R())
            if rng.random() < 0.4:
                s["b"] = R()
                s["bkw"] = rng.random() < 0.4
                if s["bkw"] and rng.random() < 0.6:
                    s["akw"], s["swap"] = True, rng.random() < 0.5
                if lits and rng.random() < 0.5:
                    s["bv"] = R()
            if lits and rng.random() < 0.4:
                s["av"] = R()
            if not simple or rng.random() < 0.15:
                if rng.random() < (0.8 if wide else 0.3):
                    s["k"] = R()
                    s["fresh"] = rng.random() < 0.15
                if rng.random() < 0.2:
                    s["s"] = R()
                s["kpos"] = rng.random() < 0.3
                s.setdefault("swap", rng.random() < 0.3)
                if rng.random() < 0.12:
                    s["force"] = rng.choice([1, 2, "yes", True, 0, False, ""])
                if rng.random() < 0.06:
                    s["unc"] = R()
            return s

        def one(op):
            if op == "call":
                return call()
            if op == "again":
                return dict(op="call", **{k: v for k, v in rng.choice(calls).items() if k != "op"}) if calls else call()
            s = dict(op=op)
            if op in ("change", "view", "drop", "own", "tree"):
                s.update(a=R(), how=R(), v=R())
                if op == "drop":
                    s["gc"], s["again"] = rng.random() < 0.5, rng.random() < 0.7
            elif op == "new":
                s["kind"] = rng.choice(["1d", "2d", "l1", "l2", "node", "root"])
            elif op == "reset":
                s.update(f=R(), whole=rng.random() < 0.3)
            elif op == "switch":
                s.update(f=R(), on=rng.random() < 0.55, how=R())
            elif op == "copy":
                s.update(f=R(), a=R(), v=R())
            return s
        steps, calls = [], []
        ops = ["call", "again", "change", "tree", "own", "view", "drop", "new", "gc", "reset", "switch", "copy"]
        ws = [12, 14, 9, 2, 1, 2, 4, 2, 1, 1, 2, 1]
        inner = ["call", "again", "change", "tree", "reset", "switch", "drop", "gc", "own"]
        iw = [6, 6, 6, 1, 2, 2, 2, 1, 1]
        hot = rng.choice([0, 0.15, 0.35])
        for _ in range(rng.randint(6, 60 if tier == "thorough" or wide else 30)):
            s = one(rng.choices(ops, ws)[0])
            if s["op"] == "call":
                calls.append({k: v for k, v in s.items() if k not in ("acts", "fault", "early")})
                if rng.random() < hot:
                    s["acts"] = {str(rng.choice([0, 0, 1, 2])): [one(rng.choices(inner, iw)[0]) for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([1, 1, 2]))}
                    if rng.random() < 0.4:
                        s["early"] = {"0": 1}
                if rng.random() < hot * 0.5:
                    s["fault"] = dict(n=rng.choice([0, 0, 1, 2]), exc=rng.choice(sorted(EXC)))
            if rng.random() < 0.15:
                s["look"] = True
            steps.append(s)
        return dict(fns=fns, pool=pool, steps=steps, addresses=rng.random() < 0.6)

    def execute(self, plan, sim):
        import paramz.caching as pc
        was = gc.isenabled()
        gc.disable()
        addr = Addresses() if plan["addresses"] else None
        if addr:
            pc.id = addr
        w = None
        try:
            w = World(sim, plan, self.groups)
            w.serials, w.nserial = {}, 0
            for st in plan["steps"]:
                w.nexec, w.acts, w.fault, w.raised = 0, st.get("acts", {}), st.get("fault"), None
                w.early, w.executed = st.get("early", {}), []
                w.call_version = {}
                self.mark(w, st)
                w.step(st)
                w.raised = None
                if st.get("look"):
                    w.look()
            w.acts, w.fault, w.early, w.raised = {}, None, {}, None
            w.look()
            if addr and addr.reused:
                sim.fault("address re-used", addr.reused)
        finally:
            if addr:
                del pc.id
            if was:
                gc.enable()
        if plan["addresses"]:
            sim.probe("runs with re-used addresses")

    def mark(self, w, st):
        """remember which pool a call was made with"""
        class Versions(dict):
            pass
        w.call_version = Versions()
        orig = w.pool_version
        w.call_version[id(st)] = orig
        for acts in st.get("acts", {}).values():
            for a in acts:
                w.call_version[id(a)] = orig
