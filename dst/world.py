"""A world of parameter hierarchies: executes steps on the real library next to the reference model and compares."""
import re, pickle, contextlib, io, operator
import numpy as np
from numpy.linalg import LinAlgError
import paramz
from paramz import Param, Model, Parameterized
from paramz.transformations import (Logexp, NegativeLogexp, Exponent, NegativeExponent, Square, Logistic, __fixed__)
from paramz.param import ParamConcatenation
from paramz.parameterized import HierarchyError

from .core import (Violation, HarnessBug, InjectedFault, InjectedInterrupt, require, same, close)
from .refmodel import R, tf, tinv, in_domain, legal, adjust, slope
from . import zoo

INPLACE = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "//": operator.ifloordiv, "%": operator.imod, "**": operator.ipow}

TYPES = dict(Logexp=Logexp, NegativeLogexp=NegativeLogexp, Exponent=Exponent, NegativeExponent=NegativeExponent, Square=Square)
EXCS = dict(fault=InjectedFault, value=ValueError, linalg=LinAlgError, zero=ZeroDivisionError, key=KeyError, interrupt=InjectedInterrupt)
ABSORBED = ("value", "linalg", "zero")


def key_of(t):
    if isinstance(t, str):
        return t
    if isinstance(t, Logistic):
        return ("Logistic", float(t.lower), float(t.upper))
    return (type(t).__name__,)


def make_t(key):
    return Logistic(key[1], key[2]) if key[0] == "Logistic" else TYPES[key[0]]()


def rnd(seed, n, lo=-3.0, hi=3.0):
    r = np.random.RandomState(seed % (2 ** 31))
    v = np.round(r.uniform(lo, hi, size=n), 3)
    v[np.abs(v) < 0.05] = 0.25
    return v


ALL = ("values", "grads", "cons", "opt", "domain", "optread", "notify", "names", "reject", "concat", "copy")


class ArrWatch(object):
    n = 0

    def told(self, who, which=None):
        self.n += 1


class World(object):
    def __init__(self, sim, plan, groups):
        self.sim, self.plan, self.groups = sim, plan, set(groups)
        self.objs, self.byid, self.keep = [], {}, []
        self.calls, self.done, self.unknown = [], [], 0
        self.fault = None
        self.fault_exc = None
        self.snaps = []
        self.handles = []
        self.rid = 0
        self.opname = "?"
        self.xkeep = []
        self.arrs = []
        for e in plan["init"]:
            self.create(e)

    # ------------------------------------------------------------------ seams
    def _maybe(self, where):
        f = self.fault
        if f is not None and f["on"] == where:
            f["n"] -= 1
            if f["n"] < 0:
                self.fault = None
                self.fault_exc = EXCS[f["exc"]]("injected into %s of %s" % (where, self.opname))
                self.sim.fault("%s raises %s" % (where, f["exc"]))
                self.sim.ev("  FAULT", where, f["exc"])
                raise self.fault_exc

    def on_changed(self, real):
        r = self.byid.get(id(real))
        if r is None:
            self.unknown += 1
        else:
            self.calls.append(r)
        self._maybe("changed")

    def on_changed_done(self, real):
        r = self.byid.get(id(real))
        if r is not None:
            self.done.append(r)

    def on_objective(self, real):
        self._maybe("objective")

    # ------------------------------------------------------------------ objects
    def _reg(self, r):
        self.objs.append(r)
        self.byid[id(r.real)] = r
        return r

    def new_r(self, kind, name, real):
        self.rid += 1
        return self._reg(R(kind, name, real, self.rid))

    def create(self, e):
        if e["k"] == "leaf":
            shape = tuple(e["shape"])
            v = rnd(e["seed"], int(np.prod(shape)))
            dc = tuple(e["dc"]) if e.get("dc") else None
            real = (zoo.Leaf if zoo.OWN[0] else Param)(e["name"], v.reshape(shape).copy(), make_t(dc) if dc else None)
            r = self.new_r("leaf", e["name"], real)
            r.shape = shape
            r.val = np.array(real.values, dtype=float).ravel().copy()
            if dc:
                ok = in_domain(dc, v)
                require(bool(np.all(r.val[ok] == v[ok])) and bool(np.all(in_domain(dc, r.val))), "domain:default-constraint",
                        lambda: "default constraint %s of a new parameter: %r became %r" % (dc, v, r.val))
            r.con = [dc] * r.size
            r.fix = np.zeros(r.size, dtype=bool)
            r.pri = [frozenset()] * r.size
            r.grad = rnd(e["seed"] + 1, r.size)
            real.gradient[...] = r.grad.reshape(shape)
        else:
            cls = dict(node=zoo.Node, model=zoo.MNode, cnode=zoo.CNode)[e["k"]]
            r = self.new_r(e["k"], e["name"], cls(e["name"]))
        return r

    def adopt(self, real, src, memo=None):
        """Register a copied / loaded real tree as a reference tree equal to src."""
        memo = {} if memo is None else memo
        r = self.new_r(src.kind, src.name, real)
        r.upd = src.upd
        if src.stuff is not None:
            self.adopt_stuff(r, src, memo)
        if src.isleaf:
            r.shape = src.shape
            r.val, r.con, r.fix, r.pri = src.val.copy(), list(src.con), src.fix.copy(), list(src.pri)
            r.grad = np.full(src.size, np.nan)
        else:
            require(len(real.parameters) == len(src.kids), "copy:structure",
                    lambda: "copy of %s has %d children, the original %d" % (src.hname(), len(real.parameters), len(src.kids)))
            r.used = set(src.used)
            for c, s in zip(list(real.parameters), src.kids):
                require(id(c) not in self.byid, "copy:shared-child", lambda: "%s of the copy is an object of the original" % s.hname())
                k = self.adopt(c, s, memo)
                k.parent = r
                r.kids.append(k)
        return r

    def pick(self, k, cands):
        return cands[k % len(cands)] if cands else None

    def leaves(self):
        return [o for o in self.objs if o.isleaf]

    def nodes(self):
        return [o for o in self.objs if not o.isleaf]

    def roots(self):
        return [o for o in self.objs if o.parent is None]

    # ------------------------------------------------------------------ target selection
    def target(self, st, leaf_only=False):
        """-> (description, real handle, [(leaf, idx)], R owner)"""
        cands = self.leaves() if leaf_only else self.objs
        if leaf_only is False:
            cands = [o for o in cands if o.size > 0] or cands
        o = self.pick(st.get("t", 0), cands)
        if o is None:
            return None
        if o.isleaf and st.get("sub"):
            idx, txt = self.index(o, st["sub"])
            if idx is not None:
                flat = np.arange(o.size).reshape(o.shape)[idx].ravel()
                h = o.real[idx]
                if flat.size and isinstance(h, np.ndarray) and h.ndim >= 1:
                    return "%s%s" % (o.hname(), txt), h, [(o, int(i)) for i in flat], o, idx
        return o.hname(), o.real, o.scalars(), o, None

    def index(self, o, k):
        """an index into a leaf: slices, integer lists, masks, rows, columns"""
        if o.size < 2:
            return None, ""
        opts = []
        if len(o.shape) == 1:
            n = o.shape[0]
            opts += [slice(0, 1), slice(1, None), slice(None, None, 2), slice(None, None, -1), [0], [n - 1, 0], [0, n - 1]]
            m = np.zeros(n, dtype=bool); m[k % n] = True; m[(k // 3) % n] = True
            opts.append(m)
        elif len(o.shape) == 3:
            n, c, e = o.shape
            opts += [(slice(None), slice(0, 1)), (slice(None), slice(None), slice(0, 1)), (slice(0, 1),), (slice(None), c - 1), (slice(None), slice(None), e - 1),
                     (Ellipsis, slice(1, None)), (slice(1, None), slice(None), slice(None, None, 2)), n - 1, [n - 1]]
            m = np.zeros(o.shape, dtype=bool); m.flat[k % o.size] = True; m.flat[(k // 5) % o.size] = True
            opts += [m, ([0, n - 1], [c - 1, 0], [0, e - 1])]
        else:
            n, c = o.shape
            opts += [(slice(None), slice(0, 1)), (slice(0, 1), slice(None)), (slice(None), slice(1, None))]
            if n > 1:
                opts += [slice(1, None), n - 1, [0]]
            m = np.zeros(o.shape, dtype=bool); m.flat[k % o.size] = True; m.flat[(k // 5) % o.size] = True
            opts += [m, ([0, n - 1], [c - 1, 0])]
        i = opts[k % len(opts)]
        if np.arange(o.size).reshape(o.shape)[i].size == 0:
            return None, ""
        return i, "[%s]" % (str(i).replace("\n", ""),)

    def values_for(self, scal, seed):
        """legal values for the given scalars"""
        v = rnd(seed, len(scal))
        out = np.array([legal(l.con[i], x) for (l, i), x in zip(scal, v)], dtype=float)
        if seed % 5 == 0 and out.size:      # exactly at a bound
            r = np.random.RandomState((seed + 3) % (2 ** 31))
            for j in r.randint(0, out.size, size=2):
                l, i = scal[j]
                if l.con[i] is None:
                    out[j] = [1., -2., 5., 5.5][r.randint(4)]
                elif l.con[i][0] == "Logistic":
                    out[j] = l.con[i][1 + r.randint(2)]
        return out

    def entries_for(self, scal, seed, extreme=False):
        v = rnd(seed, len(scal), -4, 4)
        if extreme:
            r = np.random.RandomState((seed + 7) % (2 ** 31))
            big = np.array([37., -37., 45., -45., 120., -120., 330., -330., 720., -720., 6., -6., 760., -760., 1e5, -1e5])
            v = np.where(r.uniform(size=v.shape) < 0.6, big[r.randint(0, big.size, size=v.shape)], v)
        for j, (l, i) in enumerate(scal):
            if l.con[i] is not None and l.con[i][0] == "Square":
                v[j] = min(abs(v[j]), 40.)
        return v

    # ------------------------------------------------------------------ running one operation
    def call(self, fn):
        self.calls, self.done, self.unknown, self.fault_exc = [], [], 0, None
        zoo.WORLD[0] = self
        try:
            r = fn()
            return "ok", r
        except BaseException as e:
            if e is self.fault_exc:
                return "fault", e
            if isinstance(e, (Violation, HarnessBug, MemoryError)):
                raise
            import sys
            fn_ = e.__traceback__
            self.exc_tb = fn_
            if isinstance(e, (KeyboardInterrupt, SystemExit)) or type(e).__name__ == "StepBudget":
                raise
            return "exc", e
        finally:
            zoo.WORLD[0] = None
            self.fault = None

    def snapshot(self):
        return {id(l): (l.val.copy(), list(l.con), l.fix.copy(), l.grad.copy()) for l in self.leaves()}

    def allowed(self, old, label):
        """After an operation that a callback aborted: every scalar is as before or as the operation makes it."""
        for l in self.leaves():
            ov, oc, of, og = old[id(l)]
            rv, rc, rf = self.real_leaf(l)
            for i in range(l.size):
                if "values" in self.groups or "reject" in self.groups:
                    nv = l.val[i]
                    okv = rv[i] == ov[i] or rv[i] == nv or (np.isnan(nv)) or close(rv[i], nv, 1e-9, 1e-12)
                    require(okv, "values:after-failure", lambda: "%s[%d] was %r, should become %r, is %r after %s failed" % (l.hname(), i, ov[i], nv, rv[i], label))
                if "cons" in self.groups:
                    require(rc[i] in (oc[i], l.con[i]), "cons:after-failure", lambda: "%s[%d] constraint was %r, should become %r, is %r after %s failed" % (l.hname(), i, oc[i], l.con[i], rc[i], label))
                    require(rf[i] in (of[i], l.fix[i]), "cons:after-failure", lambda: "%s[%d] fixed was %r, should become %r, is %r after %s failed" % (l.hname(), i, of[i], l.fix[i], rf[i], label))
                if "opt" in self.groups and of[i] and l.fix[i] and not np.isnan(l.val[i]):
                    require(rv[i] in (ov[i], l.val[i]), "fixed:after-failure", lambda: "fixed %s[%d] was %r, is %r after %s failed" % (l.hname(), i, ov[i], rv[i], label))
            l.val, l.con, l.fix = rv, rc, rf
            l.grad = np.full(l.size, np.nan) if not same(np.asarray(l.real.gradient).ravel(), l.grad) and not np.isnan(l.grad).all() else l.grad

    def real_leaf(self, l):
        """what the leaf itself says: values, constraint per scalar, fixed per scalar"""
        v = np.array(l.real.values, dtype=float).ravel()
        con, fix = [None] * l.size, np.zeros(l.size, dtype=bool)
        for c, ind in list(l.real.constraints.items()):
            k = key_of(c)
            for i in np.atleast_1d(np.asarray(ind, dtype=int)):
                require(0 <= i < l.size, "cons:foreign-index", lambda: "%s reports constraint %r at index %d of %d" % (l.hname(), k, i, l.size))
                if k == "fixed":
                    fix[i] = True
                else:
                    con[i] = k
        return v, con, fix

    def taint(self, roots):
        for r in roots:
            for n in r.nodes():
                n.dirty = True

    def mark_dirty_above(self, scal):
        for l, _ in scal:
            for a in l.ancestors():
                a.dirty = True

    # ------------------------------------------------------------------ generic execution
    def act(self, name, fn, apply, req=(), exact=(), once=(), touched=(), silent=(), quiet=False, text=""):
        """Run fn on the real code and apply on the reference.
        req: nodes that must be notified; exact: those exactly once; silent scalars changed without notification;
        touched: roots of the hierarchies concerned; quiet: no callback may run at all."""
        sim = self.sim
        self.opname = sim.current = name
        sim.op(name)
        old = self.snapshot()
        req = [n for n in req if n.upd]
        pre_upd = {id(r): r.upd for r in self.nodes()}
        pre_roots = {id(n): n.root() for n in self.nodes()}
        status, res = self.call(fn)
        sim.ev(name, text, status, len(self.calls), ",".join(str(c.rid) for c in self.calls))
        sim.choice(name, status, tuple(c.rid for c in self.calls))
        if status == "exc":
            import traceback
            raise Violation("exc:%s:%s" % (type(res).__name__, name), "%s %s\n%s" % (name, text, "".join(traceback.format_exception(type(res), res, res.__traceback__))[-3000:]))
        absorbed = self.fault_exc is not None and status == "ok"
        if apply is not None:
            apply(res if status == "ok" else None)
        if status == "fault":
            self.allowed(old, name)
            self.taint(touched)
            sim.probe("failed operations")
        else:
            for l in self.leaves():         # values the model leaves open are read from the real leaf
                m = np.isnan(l.val)
                if m.any():
                    rv = np.array(l.real.values, dtype=float).ravel()
                    l.val = np.where(m, rv, l.val)
            for n in self.done:
                n.dirty = False
            pos = {}
            for i, n in enumerate(self.calls):
                pos[id(n)] = i
            for n in self.calls:            # a node notified after (or without) its parent leaves the parent behind
                p = n.parent
                if p is not None and pos.get(id(p), -1) < pos[id(n)]:
                    p.dirty = True
            self.mark_dirty_above(silent)
            if "notify" in self.groups and not absorbed:
                self.check_notify(name, text, req, exact, touched, pre_upd, pre_roots, quiet)
        for r in touched:
            if absorbed:
                self.taint([r])
        return status, res

    def check_notify(self, name, text, req, exact, touched, pre_upd, pre_roots, quiet):
        cnt = {}
        last = {}
        for i, n in enumerate(self.calls):
            cnt[id(n)] = cnt.get(id(n), 0) + 1
            last[id(n)] = i
        d = lambda: "%s %s: calls were %s" % (name, text, [c.hname() for c in self.calls])
        for n in self.calls:
            require(n.upd or pre_upd.get(id(n)), "notify:while-off", lambda: "parameters_changed of %s ran with updates off; " % n.hname() + d())
            require(any(n.root() is t or pre_roots.get(id(n)) is t for t in touched), "notify:foreign", lambda: "parameters_changed of the unconcerned %s ran; " % n.hname() + d())
        if quiet:
            require(not self.calls, "notify:unexpected", d)
        for n in req:
            require(cnt.get(id(n), 0) >= 1, "notify:missed", lambda: "parameters_changed of %s did not run; " % n.hname() + d())
            p = n.parent
            if p is not None and any(p is q for q in req):
                require(last[id(n)] < last.get(id(p), -1), "notify:order", lambda: "%s was told after its parent; " % n.hname() + d())
        for n in exact:
            if n.upd:
                require(cnt.get(id(n), 0) <= 1, "notify:repeated", lambda: "parameters_changed of %s ran %d times; " % (n.hname(), cnt.get(id(n), 0)) + d())
        self.sim.checks += 1

    def reject(self, name, fn, exc=Exception, text=""):
        """An operation that must be rejected and leave everything as it was."""
        sim = self.sim
        self.opname = sim.current = name
        sim.op(name)
        status, res = self.call(fn)
        sim.ev(name, text, status, type(res).__name__ if status != "ok" else "")
        sim.choice(name, status)
        sim.fault("rejected:" + name)
        if status == "ok":
            require(False, "reject:accepted:" + name, "%s %s was accepted, returned %r" % (name, text, res))
        if status == "exc":
            require(not isinstance(res, RecursionError), "reject:recursion:" + name, lambda: "%s %s: endless recursion" % (name, text))
            require(isinstance(res, exc), "reject:wrong-error:" + name, lambda: "%s %s raised %r" % (name, text, res))
        for n in self.calls:
            n.dirty = True if n not in self.done else n.dirty

    # ------------------------------------------------------------------ oracles over the whole world
    def verify(self):
        g, sim = self.groups, self.sim
        sim.current = "verify after " + self.opname
        sim.checks += 1
        ctx = self.opname
        if "values" in g:
            self.verify_values(ctx)
        if "grads" in g:
            self.verify_grads(ctx)
        if "cons" in g:
            self.verify_cons(ctx)
            if zoo.OWN[0]:
                self.verify_marks(ctx)
        if "opt" in g:
            self.verify_opt(ctx)
        if "domain" in g:
            self.verify_domain(ctx)
        if self.arrs and "copy" in g:
            self.verify_arrs(ctx)
        if "optread" in g:
            self.verify_optread(ctx)
        if "notify" in g:
            self.verify_derived(ctx)
        if "names" in g:
            self.verify_names(ctx)
        if "concat" in g:
            self.verify_handles(ctx)
        if "print" in g:
            self.verify_print(ctx)
        sim.state(tuple(r.shape_sig() for r in self.roots()))

    def verify_values(self, ctx):
        for o in self.objs:
            if o.isleaf:
                rv = np.array(o.real.values, dtype=float)
                require(rv.shape == o.shape, "values:shape", lambda: "%s has shape %r, expected %r after %s" % (o.hname(), rv.shape, o.shape, ctx))
                require(same(rv.ravel(), o.val), "values:leaf", lambda: "%s shows %r, expected %r after %s" % (o.hname(), rv.ravel(), o.val, ctx))
            else:
                require(o.real.size == o.size, "values:size", lambda: "%s has size %r, expected %r after %s" % (o.hname(), o.real.size, o.size, ctx))
                rv = np.array(o.real.param_array, dtype=float).ravel()
                require(same(rv, o.values()), "values:flat", lambda: "%s shows %r, expected %r after %s" % (o.hname(), rv, o.values(), ctx))
                if o.size:
                    rv = np.array(o.real[:], dtype=float).ravel()
                    require(same(rv, o.values()), "values:index", lambda: "%s[:] is %r, expected %r after %s" % (o.hname(), rv, o.values(), ctx))
                require(len(o.real.parameters) == len(o.kids) and all(a is b.real for a, b in zip(o.real.parameters, o.kids)), "structure:children",
                        lambda: "%s has children %r, expected %r after %s" % (o.hname(), [c.name for c in o.real.parameters], [k.name for k in o.kids], ctx))

    def verify_grads(self, ctx):
        for o in self.objs:
            want = o.grad if o.isleaf else o.grads()
            got = np.array(o.real.gradient if o.isleaf else o.real.gradient_full, dtype=float).ravel()
            if o.size == 0:
                continue
            require(got.size == want.size, "grads:size", lambda: "%s has %d gradient values, expected %d after %s" % (o.hname(), got.size, want.size, ctx))
            m = ~np.isnan(want)
            require(same(got[m], want[m]), "grads:flat" if not o.isleaf else "grads:leaf", lambda: "gradient of %s shows %r, expected %r after %s" % (o.hname(), got, want, ctx))

    def verify_cons(self, ctx):
        for o in self.objs:
            n = o.size
            want = [set(([c] if c is not None else []) + (["fixed"] if f else [])) for c, f in zip(o.cons(), o.fixes())]
            got = [set() for _ in range(n)]
            for c, ind in list(o.real.constraints.items()):
                k = key_of(c)
                for i in np.atleast_1d(np.asarray(ind, dtype=int)):
                    require(0 <= i < n, "cons:foreign-index", lambda: "%s reports %r at index %d of %d after %s" % (o.hname(), k, i, n, ctx))
                    got[i].add(k)
            require(got == want, "cons:handle", lambda: "%s reports %r, expected %r after %s" % (o.hname(), got, want, ctx))
            if n:
                pf = [set(key_of(c) for c in p) for p in o.real.constraints.properties_for(np.arange(n))]
                at = np.arange(n)[(self.sim.checks + o.rid) % n::1 + o.rid % 3]
                d = {key_of(c): sorted(int(i) for i in ind) for c, ind in o.real.constraints.properties_dict_for(at).items()}
                wd = {c: [int(i) for i in at if c in want[i]] for c in set().union(*[want[i] for i in at])}
                require(d == wd, "cons:properties", lambda: "%s reports for the scalars %r the constraints %r, expected %r after %s" % (o.hname(), at, d, wd, ctx))
                require(o.real.constraints.size == sum(len(w) for w in want), "cons:size", lambda: "%s reports %r entries of constraints, expected %r after %s" % (o.hname(), o.real.constraints.size, sum(len(w) for w in want), ctx))
                require(pf == want, "cons:properties", lambda: "%s reports per scalar %r, expected %r after %s" % (o.hname(), pf, want, ctx))
                require(bool(o.real.is_fixed) == bool(o.fixes().all()), "cons:is_fixed", lambda: "%s.is_fixed is %r with fixes %r after %s" % (o.hname(), o.real.is_fixed, o.fixes(), ctx))

    def verify_marks(self, ctx):
        for o in self.objs:
            want = [p for l in o.leaves() for p in l.pri]
            got = [set() for _ in want]
            for c, ind in list(o.real.priors.items()):
                for i in np.atleast_1d(np.asarray(ind, dtype=int)):
                    require(0 <= i < len(want), "cons:own-foreign-index", lambda: "%s reports %r at index %d of %d after %s" % (o.hname(), c, i, len(want), ctx))
                    require(c not in got[i], "cons:own-twice", lambda: "%s reports %r twice at index %d after %s" % (o.hname(), c, i, ctx))
                    got[i].add(c)
            require(got == want, "cons:own", lambda: "%s reports %r for the index operation of the user, expected %r after %s" % (o.hname(), got, [sorted(w) for w in want], ctx))
            if want:
                pf = [set(p) for p in o.real.priors.properties_for(np.arange(len(want)))]
                require(pf == want, "cons:own", lambda: "%s reports per scalar %r, expected %r after %s" % (o.hname(), pf, [sorted(w) for w in want], ctx))

    def flat_names(self, o, free_only=True):
        out = []
        for l, i in (o.free() if free_only else o.scalars()):
            h = l.hname()
            out.append(h if l.size == 1 else "%s[%s]" % (h, np.array(np.unravel_index(i, l.shape))))
        return out

    def verify_opt(self, ctx):
        for o in self.objs:
            x = o.real.optimizer_array
            free = o.free()
            require(x.ndim == 1 and x.size == len(free), "opt:size", lambda: "optimizer_array of %s has shape %r, %d scalars are free after %s" % (o.hname(), x.shape, len(free), ctx))
            if o.size == 0:
                continue
            for j, (l, i) in enumerate(free):          # the order of the entries, through unconstrained scalars
                if l.con[i] is None:
                    require(x[j] == l.val[i], "opt:order", lambda: "entry %d of %s is %r, scalar %s[%d] is %r after %s" % (j, o.hname(), x[j], l.hname(), i, l.val[i], ctx))
            if not o.isleaf:
                u = np.asarray(o.real.unfixed_param_array)
                require(same(u.ravel(), np.array([l.val[i] for l, i in free])), "opt:unfixed", lambda: "unfixed_param_array of %s is %r after %s" % (o.hname(), u, ctx))
            if o.parent is not None and (o.rid + self.sim.checks) % 4:
                continue        # names are slow to build; every object gets its turn
            want = self.flat_names(o)
            got = [str(s) for s in o.real.parameter_names_flat()]
            require(got == want, "opt:names", lambda: "names of %s are %r, expected %r after %s" % (o.hname(), got, want, ctx))
            want = self.flat_names(o, False)
            got = [str(s) for s in o.real.parameter_names_flat(include_fixed=True)]
            require(got == want, "opt:names", lambda: "all names of %s are %r, expected %r after %s" % (o.hname(), got, want, ctx))

    def verify_domain(self, ctx):
        for l in self.leaves():
            rv, _, _ = self.real_leaf(l)
            for i in range(l.size):
                if l.con[i] is not None:
                    require(bool(in_domain(l.con[i], rv[i])), "domain:outside", lambda: "%s[%d] = %r is outside %r after %s" % (l.hname(), i, rv[i], l.con[i], ctx))

    def want_entries(self, o):
        return np.array([l.val[i] if l.con[i] is None else float(tinv(l.con[i], l.val[i])) for l, i in o.free()])

    def verify_optread(self, ctx):
        for o in self.objs:
            x = np.array(o.real.optimizer_array, dtype=float)
            want = self.want_entries(o)
            require(x.shape == want.shape, "optread:size", lambda: "optimizer_array of %s has shape %r, expected %r after %s" % (o.hname(), x.shape, want.shape, ctx))
            m = np.isfinite(want)
            require(close(x[m], want[m], 1e-6, 1e-6), "optread:stale", lambda: "optimizer_array of %s is %r, the values say %r after %s" % (o.hname(), x, want, ctx))
        for arr, cp, what in self.snaps:
            require(same(arr, cp), "optread:altered", lambda: "the vector read earlier from %s was %r and has become %r after %s" % (what, cp, np.array(arr), ctx))

    def verify_derived(self, ctx):
        for n in self.nodes():
            if n.dirty or not n.upd:
                continue
            want = zoo.derive(n.real)
            got = n.real.__dict__.get("derived")
            require(got is not None and close(got, want, 1e-9, 1e-9), "notify:derived-stale",
                    lambda: "derived state of %s is %r, its values and children say %r after %s" % (n.hname(), got, want, ctx))

    def verify_names(self, ctx):
        for n in self.nodes():
            names = [k.real.name for k in n.kids]
            adj = [adjust(x) for x in names]
            require(len(set(adj)) == len(adj), "names:duplicate", lambda: "children of %s are called %r after %s" % (n.hname(), names, ctx))
            for k in n.kids:
                require(k.real.name == k.name, "names:altered", lambda: "%s is called %r after %s" % (k.hname(), k.real.name, ctx))
                a = adjust(k.name)
                if a in zoo.reserved(n.real):
                    # an attribute of its parent stays one; the child is reached by its path
                    self.sim.probe("a child named like an attribute of its parent")
                    require(getattr(n.real, a, None) is not k.real, "names:attribute", lambda: "attribute %s of %s is its child after %s" % (a, n.hname(), ctx))
                    continue
                got = getattr(n.real, a, None)
                require(got is k.real, "names:attribute", lambda: "attribute %s of %s is %r after %s" % (a, n.hname(), type(got), ctx))
            for u in n.used:
                if u not in adj and u not in zoo.reserved(n.real):
                    require(u not in n.real.__dict__, "names:stale-attribute", lambda: "%s still has the attribute %s of a child gone or renamed after %s" % (n.hname(), u, ctx))
                    require(not hasattr(n.real, u), "names:stale-attribute", lambda: "%s still has the attribute %s after %s" % (n.hname(), u, ctx))
            require(n.real.parameter_names(adjust_for_printing=True, recursive=False) == adj, "names:list", lambda: "parameter_names of %s after %s" % (n.hname(), ctx))
        for r in self.roots():
            if r.isleaf:
                continue
            for o in r.all()[1:]:
                got = r.real["^" + re.escape(o.path()) + "$"]
                require(got is o.real, "names:lookup", lambda: "looking up %s gives %r after %s" % (o.path(), type(got), ctx))
                require(o.real.hierarchy_name() == o.hname(), "names:path", lambda: "%s says its path is %s after %s" % (o.hname(), o.real.hierarchy_name(), ctx))

    def verify_handles(self, ctx):
        for h, members, pat, root in self.handles:
            want = np.concatenate([m.val for m in members])
            got = np.asarray(h.values(), dtype=float) if isinstance(h, ParamConcatenation) else np.asarray(h.values, dtype=float).ravel()
            require(same(got, want), "concat:values", lambda: "the selection %r of %s reads %r, its members say %r after %s" % (pat, root.name, got, want, ctx))
            got = np.asarray(h[:]).ravel()
            require(same(got, want), "concat:index", lambda: "the selection %r of %s[:] reads %r, its members say %r after %s" % (pat, root.name, got, want, ctx))
            rs = np.random.RandomState((self.sim.checks * 7 + len(pat)) % (2 ** 31))
            n = len(want)
            a, b = sorted(rs.randint(-n, n + 1, 2).tolist())
            m = rs.uniform(size=n) < 0.5
            for ix in (slice(a, b), slice(None, None, -1), slice(a, None, 2), m, np.where(m)[0], rs.permutation(n)[:1 + n // 2], [a % n, b % n, a % n], a % n, a % n - n):
                if not isinstance(h, ParamConcatenation):
                    break
                got, part = np.asarray(h[ix]).ravel(), np.atleast_1d(want[ix])
                require(same(got, part), "concat:part", lambda: "the selection %r of %s[%r] reads %r, its members say %r after %s" % (pat, root.name, ix, got, part, ctx))

    # --- printed summaries
    @staticmethod
    def marks(cons, whole=True):
        """what the constraints column has to show for these scalars"""
        count = {}
        for c, f in cons:
            for k in ([c] if c is not None else []) + (["fixed"] if f else []):
                count[k] = count.get(k, 0) + 1
        out = []
        for k, n in count.items():
            t = "fixed" if k == "fixed" else str(make_t(k))
            out.append(t if n == len(cons) else "{" + t + "}")
        return sorted(out)

    def same_value(self, text, v, exact, what, ctx):
        try:
            x = float(text)
        except ValueError:
            x = None
        require(x is not None and (x == v or not exact and abs(x - v) <= 0.51e-8 + 1e-9 * abs(v)), "print:value", lambda: "%s prints %r for %r after %s" % (what, text, v, ctx))

    def cells(self, head, r, what, ctx):
        """the columns behind the value: the constraints, and what the index operation of the user says"""
        cols = [c for c in head[2:] if c]
        require(sorted(cols) == ["constraints"] + ["priors"] * bool(zoo.OWN[0]) and len(r) >= 2 + len(cols), "print:columns", lambda: "%s prints the columns %r with the row %r after %s" % (what, head, r, ctx))
        return {c: sorted(r[2 + i].split()) for i, c in enumerate(cols)}

    def own_marks(self, pris):
        count = {}
        for s in pris:
            for k in s:
                count[k] = count.get(k, 0) + 1
        return sorted(k if n == len(pris) else "{%s}" % k for k, n in count.items())

    def check_table(self, o, rows, names, ctx, head=None):
        ls = o.leaves()
        got = [r[0] for r in rows]
        require(got == names, "print:rows", lambda: "the summary of %s lists %r, its leaves are %r after %s" % (o.hname(), got, names, ctx))
        for l, r in zip(ls, rows):
            cells = self.cells(head, r, o.hname(), ctx)
            if l.size == 1:
                self.same_value(r[1], l.val[0], True, l.hname(), ctx)
            else:
                require(r[1].replace(" ", "") == str(l.shape).replace(" ", ""), "print:shape", lambda: "%s prints as %r, its shape is %r after %s" % (l.hname(), r[1], l.shape, ctx))
            want = self.marks(list(zip(l.con, l.fix)))
            require(cells["constraints"] == want, "print:constraints", lambda: "the constraints of %s print as %r, expected %r after %s" % (l.hname(), r, want, ctx))
            if "priors" in cells:
                want = self.own_marks(l.pri)
                require(cells["priors"] == want, "print:own", lambda: "the index operation of the user for %s prints as %r, expected %r after %s" % (l.hname(), r, want, ctx))

    def check_scalars(self, rows, scal, what, ctx, head=None):
        require(len(rows) == len(scal), "print:entries", lambda: "%s prints %d entries, it has %d after %s" % (what, len(rows), len(scal), ctx))
        for (l, i), r in zip(scal, rows):
            idx = tuple(int(x) for x in re.findall(r"-?\d+", r[0]))
            require(idx == tuple(int(x) for x in np.unravel_index(i, l.shape)), "print:index", lambda: "entry %d of %s prints with index %r after %s" % (i, what, r[0], ctx))
            cells = self.cells(head, r, what, ctx)
            self.same_value(r[1], l.val[i], False, "%s[%d]" % (what, i), ctx)
            want = self.marks([(l.con[i], l.fix[i])])
            require(cells["constraints"] == want, "print:constraints", lambda: "the constraints of %s[%d] print as %r, expected %r after %s" % (what, i, r, want, ctx))
            if "priors" in cells:
                want = sorted(l.pri[i])
                require(cells["priors"] == want, "print:own", lambda: "the index operation of the user for %s[%d] prints as %r, expected %r after %s" % (what, i, r, want, ctx))

    @staticmethod
    def text_rows(text):
        text = re.sub("\x1b\\[[0-9;]*m", "", text)
        return [[c.strip() for c in line.split("  |  ")] for line in (l + "  " for l in text.split("\n"))]

    @staticmethod
    def html_rows(text):
        text = re.sub(r"<style.*?</style>", "", text, flags=re.S)
        rows = re.findall(r"<tr>(.*?)</tr>", text, flags=re.S)
        return [[re.sub(r"<[^>]*>", "", c).strip() for c in re.findall(r"<t[dh][^>]*>(.*?)</t[dh]>", r, flags=re.S)] for r in rows]

    def check_details(self, o, text, ctx):
        text = re.sub(r"<style.*?</style>", "", re.sub("\x1b\\[[0-9;]*m", "", text), flags=re.S)
        plain = re.sub(r"<[^>]*>", "", text)
        for what, want in (("Number of Parameters", str(o.size)), ("Number of Optimization Parameters", str(len(o.free()))), ("Updates", str(bool(o.upd)))):
            m = re.search(r"^\s*%s\s*:\s*(\S+)\s*$" % what, plain, flags=re.M)
            require(m and m.group(1) == want, "print:details", lambda: "%s of %s prints as %r, is %s after %s" % (what, o.hname(), m and m.group(1), want, ctx))
        m = re.search(r"^\s*Objective\s*:\s*(\S+)\s*$", plain, flags=re.M)
        want = float(((o.values() - o.real.centre()) ** 2).sum())
        require(m and close(float(m.group(1)), want, 1e-9, 1e-12), "print:details", lambda: "the objective of %s prints as %r, is %r after %s" % (o.hname(), m and m.group(1), want, ctx))

    def verify_print(self, ctx, every=False):
        for j, o in enumerate(self.objs):
            k = o.rid + self.sim.checks
            if not every and k % 5:
                continue
            self.sim.probe("printed")
            k //= 5
            if o.isleaf:
                if k % 2:
                    rows, head = self.text_rows(o.real.__str__(VT100=bool(k % 4 == 1))), 1
                else:
                    rows, head = self.html_rows(o.real._repr_html_()), 1
                require(len(rows) > 0 and o.hname() in rows[0][1], "print:header", lambda: "%s prints under %r after %s" % (o.hname(), rows[:1], ctx))
                self.check_scalars(rows[1:], o.scalars(), o.hname(), ctx, rows[0])
                what, h, scal, l, idx = self.part(o, k)
                if h is not None:
                    rows = self.text_rows(str(h)) if k % 2 else self.html_rows(h._repr_html_())
                    self.check_scalars(rows[1:], scal, what, ctx, rows[0])
                continue
            ismodel = isinstance(o.real, paramz.Model)
            if k % 2:
                text = o.real.__str__(VT100=bool(k % 4 == 1))
                rows = [r for r in self.text_rows(text) if len(r) > 1]
                names = [self.below(l, o, True) for l in o.leaves()]
            else:
                text = o.real._repr_html_()
                rows = self.html_rows(text)
                names = [self.below(l, o, False) for l in o.leaves()]
            require(rows and rows[0][0].rstrip(".") == adjust(o.name), "print:header", lambda: "the summary of %s begins with %r after %s" % (o.hname(), rows[:1], ctx))
            self.check_table(o, rows[1:], names, ctx, rows[0])
            if ismodel:
                self.check_details(o, text, ctx)
        for h, members, pat, root in self.handles:
            if (self.sim.checks + len(pat)) % 3 and not every or not isinstance(h, ParamConcatenation):
                continue
            rows = [r for r in self.text_rows(str(h)) if len(r) > 1]
            at = 0
            for n, l in enumerate(members):
                require(len(rows) > at and l.hname() in rows[at][1], "print:header", lambda: "the selection %r prints %r for %s after %s" % (pat, rows[at:at + 1], l.hname(), ctx))
                self.check_scalars(rows[at + 1:at + 1 + l.size], l.scalars(), l.hname(), ctx, rows[0])
                at += 1 + l.size
            require(len(rows) == at, "print:entries", lambda: "the selection %r prints %d lines, expected %d after %s" % (pat, len(rows), at, ctx))

    def part(self, o, k):
        idx, txt = self.index(o, k)
        if idx is None:
            return None, None, None, None, None
        flat = np.arange(o.size).reshape(o.shape)[idx].ravel()
        h = o.real[idx]
        if flat.size and isinstance(h, paramz.Param) and h.ndim >= 1:
            return "%s%s" % (o.hname(), txt), h, [(o, int(i)) for i in flat], o, idx
        return None, None, None, None, None

    def below(self, l, o, adj):
        out = []
        while l is not o:
            out.append(adjust(l.name) if adj else l.name)
            l = l.parent
        return ".".join(reversed(out))

    def drop_handles(self, roots):
        self.handles = [h for h in self.handles if not any(h[3] is r for r in roots)]

    # ------------------------------------------------------------------ renaming rules
    def resync_names(self, parents, requested, ctx):
        """Names may only have changed where they collided, and then only by a numeric suffix."""
        for p in parents:
            if p is None:
                continue
            want = {id(k): requested.get(id(k), k.name) for k in p.kids}
            now = {id(k): k.real.name for k in p.kids}
            for k in p.kids:
                w, n = want[id(k)], now[id(k)]
                if w == n:
                    continue
                if "names" in self.groups:
                    base = lambda s: re.sub(r"(_\d+)+$", "", s)
                    require(base(w) == base(n) and re.match(r"^.*_\d+$", n), "names:altered", lambda: "%s became %r after %s" % (w, n, ctx))
                    others = [want[id(o)] for o in p.kids if o is not k] + [now[id(o)] for o in p.kids if o is not k]
                    require(adjust(w) in [adjust(x) for x in others], "names:altered-without-collision", lambda: "%r became %r though no sibling of %r has that name after %s" % (w, n, others, ctx))
                k.name = n
                self.sim.probe("renamed after a collision")
            for k in p.kids:
                p.used.add(adjust(k.name))
                p.used.add(adjust(want[id(k)]))

    # ------------------------------------------------------------------ steps
    def step(self, st):
        f = getattr(self, "op_" + st["op"])
        ft = st.get("fault")
        self.fault = dict(ft) if ft else None
        f(st)
        self.fault = None
        if st.get("look", True):
            self.verify()

    # --- structure
    def op_link(self, st):
        nodes = self.nodes()
        n = self.pick(st["a"], nodes)
        o = self.pick(st["b"], self.objs)
        if n is not None and o is not None and o.root() is n.root() and st["b"] // 7 % 4:
            o = self.pick(st["b"], [x for x in self.objs if x.root() is not n.root() and x.kind != "model"])
        if n is None or o is None or o.kind == "model":
            return
        self.fault = None
        idx = st.get("index")
        nr, orr = n.root(), o.root()
        if nr is orr:
            if o.parent is n and idx is not None:
                return self.relink(n, o, idx)
            return self.reject("link twice or into itself", lambda: n.real.link_parameter(o.real, *([idx] if idx is not None and o.parent is not n else [])), HierarchyError,
                               "%s into %s" % (o.hname(), n.hname()))
        if n.upd != o.upd:
            return
        oldp = o.parent
        text = "%s into %s at %r" % (o.hname(), n.hname(), idx)
        affected = n.ancestors() + [n] + (o.ancestors() if oldp else [])

        def apply(res):
            if oldp is not None:
                oldp.kids.remove(o)
            if idx is None:
                n.kids.append(o)
            else:
                n.kids.insert(idx, o)
            o.parent = n
            for a in affected:
                a.dirty = True
        self.drop_handles([nr, orr])
        self.act("move" if oldp else ("link at index" if idx is not None else "link"), lambda: n.real.link_parameter(o.real, *([idx] if idx is not None else [])), apply, touched=[nr, orr], text=text)
        self.resync_names([n, oldp], {}, "linking " + text)

    def relink(self, n, o, idx):
        def apply(res):
            n.kids.remove(o)
            n.kids.insert(idx, o)
            for a in [n] + n.ancestors():
                a.dirty = True
        self.drop_handles([n.root()])
        self.act("re-order", lambda: n.real.link_parameter(o.real, idx), apply, touched=[n.root()], text="%s to %d" % (o.hname(), idx))
        self.resync_names([n], {}, "re-ordering")

    def op_build(self, st):
        """a new object that links, constrains and fixes its parts in its own __init__, perhaps initialized later"""
        if len(self.objs) > 34:
            return
        self.fault = None
        cands = [x for x in self.objs if x.parent is None and x.kind != "model" and x.upd]
        kids, idxs = [], []
        for b, i in st["parts"]:
            k = self.pick(b, [x for x in cands if x not in kids])
            if k is not None:
                kids.append(k)
                idxs.append(i)
        model = st["model"]
        at_once = st["at_once"]
        order, plan = [], {}
        for k, i, t in zip(kids, idxs, st["then"]):
            if i is None or at_once:
                order.append(k)
            else:
                order.insert(i, k)
            plan[id(k.real)] = (k, t)
        key = tuple(st["key"])

        def then(real):
            k, t = plan[id(real)]
            if k.size == 0:
                return
            if t in (1, 3):
                real.constrain(make_t(key))
            if t in (2, 3):
                real.fix()
            if t == 4:
                real.unconstrain()
                real.unfix()
        cls = zoo.BModel if model else zoo.BNode
        late = st["late"]
        scal = [(l, i) for k in order for l in k.leaves() for i in range(l.size)]
        lv = None

        def fn():
            import warnings
            parts = list(zip([k.real for k in kids], idxs))
            if not late:
                return cls(st["name"], parts, then, at_once)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m = cls(st["name"], parts, then, at_once, initialize=False)
            if late > 1:
                m.update_model(False)
            m.initialize_parameter()
            if late > 1:
                m.update_model(True)
            return m
        r = R("model" if model else "node", st["name"], None, 0)
        new = []

        def apply(res):
            r = self.new_r("model" if model else "node", st["name"], res)
            new.append(r)
            r.kids = order
            r.used = set()
            r.dirty = False
            for k in order:
                k.parent = r
                t = plan[id(k.real)][1]
                for l in k.leaves():
                    if t == 4:
                        l.con, l.fix = [None] * l.size, np.zeros(l.size, dtype=bool)
                    if t in (1, 3):
                        for i in range(l.size):
                            l.con[i], l.fix[i] = key, False
                            if not bool(in_domain(key, l.val[i])):
                                l.val[i] = np.nan
                    if t in (2, 3):
                        l.fix[:] = True
        self.drop_handles(kids)
        req = [x for k in kids for x in k.all() if not x.isleaf]
        self.act("build" if not late else "build and initialize later", fn, apply, req=req, touched=list(kids), text="%s of %s" % (st["name"], [k.hname() for k in kids]))
        self.keep.append(new[0].real)
        self.resync_names(new, {}, "building")

    def op_unlink(self, st):
        cands = [o for o in self.objs if o.parent is not None]
        o = self.pick(st["a"], cands)
        if o is None:
            return
        self.fault = None
        p = o.parent
        root = p.root()

        def apply(res):
            p.kids.remove(o)
            o.parent = None
            for a in [p] + p.ancestors():
                a.dirty = True
        self.drop_handles([root])
        self.act("unlink", lambda: p.real.unlink_parameter(o.real), apply, touched=[root], text=o.hname())
        self.resync_names([p], {}, "unlinking")
        if "names" in self.groups or "reject" in self.groups:
            require(not o.real.has_parent(), "structure:parent", lambda: "%s still has a parent after being unlinked" % o.hname())

    def op_rename(self, st):
        o = self.pick(st["a"], [x for x in self.objs if x.parent is not None] or self.objs)
        name = st["name"]
        if o is None:
            return
        self.fault = None
        p = o.parent
        self.drop_handles([o.root()])
        if p is not None:
            p.used.add(adjust(o.name))
        text = "%s to %r" % (o.hname(), name)
        self.act("rename", lambda: setattr(o.real, "name", name), None, touched=[o.root()], text=text)
        if p is None:
            if "names" in self.groups:
                require(o.real.name == name, "names:altered", lambda: "renaming the root %s gave %r" % (text, o.real.name))
            o.name = o.real.name
        else:
            self.resync_names([p], {id(o): name}, "renaming " + text)
            o.name = o.real.name

    # --- values
    def write_req(self, scal):
        req = []
        for l, _ in scal:
            for a in l.ancestors():
                if a not in req:
                    req.append(a)
        return req

    def op_write(self, st):
        t = self.target(st, leaf_only=bool(st.get("leaf", True)))
        if t is None:
            return
        desc, h, scal, o, idx = t
        if not scal:
            return
        how = st.get("how", 0) % 9
        v = self.values_for(scal, st["seed"])
        root = o.root()
        req = self.write_req(scal)
        exact = list(req)
        real = o.real
        plain = idx is None
        pname = adjust(o.name)
        name = None
        if o.isleaf:
            shaped = v.reshape(np.arange(o.size).reshape(o.shape)[idx].shape) if not plain else v.reshape(o.shape)
            if not plain:
                name, fn = "write leaf by index", lambda: real.__setitem__(idx, shaped)
                basic = not any(isinstance(q, (list, np.ndarray)) for q in (idx if isinstance(idx, tuple) else (idx,)))
                if how % 3 == 2 and basic and not any(l.con[i] for l, i in scal):
                    sym, k = self.inplace_op(st["seed"], np.array([l.val[i] for l, i in scal]))
                    v = INPLACE[sym](np.array([l.val[i] for l, i in scal]), k)

                    def fn():
                        real[idx] = INPLACE[sym](real[idx], k)
                    name, exact = "write leaf by index in place %s=" % sym, []
                elif how % 3 == 1 and basic:
                    name, fn = "write leaf through a view", lambda: real[idx].__setitem__(Ellipsis, shaped)
            elif how in (0, 1):
                name, fn = "write leaf", lambda: real.__setitem__(slice(None), shaped)
            elif how == 2 and o.parent is not None and pname not in zoo.reserved(o.parent.real):
                name, fn = "write by attribute", lambda: setattr(o.parent.real, pname, shaped)
            elif how == 3 and o.parent is not None:
                pat = "^" + re.escape(o.path()) + "$"
                name, fn = "write by pattern", lambda: root.real.__setitem__(pat, shaped)
            elif how == 4 and len(o.shape) == 2 and st["seed"] % 2 and not any(c for c in o.con):
                r = np.random.RandomState(st["seed"] % (2 ** 31))
                mat = np.eye(o.shape[1])[r.permutation(o.shape[1])] * np.round(r.uniform(0.5, 1.5), 3)
                v = (o.val.reshape(o.shape) @ mat).ravel()

                def fn():
                    p = real
                    p @= mat
                    require(p is real, "values:in-place", lambda: "in-place multiplication of %s gives another object" % o.hname())
                name = "write leaf in place @="
            elif how == 4 and not any(c for c in o.con):
                sym, k = self.inplace_op(st["seed"], o.val)
                if st["seed"] % 3 == 0 and sym != "**":
                    k = k + rnd(st["seed"] + 1, o.size, 0.1, 1.0).reshape(o.shape)
                v = INPLACE[sym](o.val.copy().reshape(o.shape), k).ravel()

                def fn():
                    INPLACE[sym](real, k)
                name = "write leaf in place %s=" % sym
            elif how == 5 and all(c is None or c[0] != "Logistic" for c in o.con):
                k = abs(float(rnd(st["seed"], 1, 0.5, 1.5)[0]))
                v = o.val * k

                def fn():
                    p = real
                    p *= k
                name = "write leaf in place *="
            elif how == 6:
                i = st["seed"] % o.size
                scal, v = [(o, i)], v[i:i + 1]
                mi = tuple(int(q) for q in np.unravel_index(i, o.shape))
                name, fn = "write one scalar", lambda: real.__setitem__(mi, float(v[0]))
            elif how == 7:
                name, fn = "write leaf without notification", lambda: real.values.__setitem__(Ellipsis, shaped)
            else:
                k = v[0]
                if all(legal_ok(c, k) for c in o.con):
                    v = np.full(len(scal), k)
                    name, fn = "write leaf by broadcast", lambda: real.__setitem__(slice(None), float(k))
                else:
                    name, fn = "write leaf", lambda: real.__setitem__(slice(None), shaped)
        else:
            req = self.write_req(scal)
            exact = [n for n in root.nodes()]
            if how in (0, 1, 2):
                name, fn = "write node", lambda: real.__setitem__(slice(None), v)
            elif how in (3, 4):
                a = st["seed"] % len(scal)
                b = a + 1 + (st["seed"] // 7) % (len(scal) - a)
                scal, v = scal[a:b], v[a:b]
                req = self.write_req(scal)
                name, fn = "write node by slice", lambda: real.__setitem__(slice(a, b), v)
            elif how == 5:
                m = np.random.RandomState(st["seed"]).uniform(size=len(scal)) < 0.5
                if not m.any():
                    m[0] = True
                ix = np.where(m)[0]
                scal, v = [scal[i] for i in ix], v[ix]
                req = self.write_req(scal)
                arg = m if st["seed"] % 2 else ix
                name, fn = "write node by mask", lambda: real.__setitem__(arg, v)
            elif how == 6 and o.parent is not None and pname not in zoo.reserved(o.parent.real):
                name, fn = "write node by attribute", lambda: setattr(o.parent.real, pname, v)
            elif how == 7:
                name, fn = "write flat vector without notification", lambda: real.param_array.__setitem__(slice(None), v)
            else:
                name, fn = "write node", lambda: real.__setitem__(slice(None), v)
        silent = scal if "without notification" in name else ()
        if silent:
            req, exact = [], []

        def apply(res):
            for (l, i), x in zip(scal, v):
                l.val[i] = x
        if not root_upd(o):
            silent = scal
        self.act(name, fn, apply, req=req, exact=exact, touched=[root], silent=silent, text="%s = %s" % (desc, v), quiet=("without notification" in name))

    def inplace_op(self, seed, vals):
        r = np.random.RandomState(seed % (2 ** 31))
        sym = "+ - * / // % ** + *".split()[r.randint(9)]
        k = float(np.round(r.uniform(0.6, 3.0), 3))
        if sym == "**":
            k = 2.0
            if vals.size and np.abs(vals).max() > 30:
                sym = "-"
        return sym, k

    def op_gradient(self, st):
        o = self.pick(st["t"], [x for x in self.objs if x.size > 0])
        if o is None:
            return
        self.fault = None
        scal = o.scalars()
        v = rnd(st["seed"], len(scal))
        real = o.real
        how = st.get("how", 0) % 3
        idx = None
        if o.isleaf and st.get("sub"):
            idx = self.index(o, st["sub"])[0]
            if any(isinstance(q, (list, np.ndarray)) for q in (idx if isinstance(idx, tuple) else (idx,))):
                idx = None
        if idx is not None:
            flat = np.arange(o.size).reshape(o.shape)[idx]
            scal = [(o, int(i)) for i in flat.ravel()]
            v = v[:len(scal)]
            s = v.reshape(flat.shape)
            fn = [lambda: setattr(real[idx], "gradient", s), lambda: real[idx].gradient.__setitem__(Ellipsis, s), lambda: real.gradient.__setitem__(idx, s)][how]
        elif o.isleaf:
            s = v.reshape(o.shape)
            fn = [lambda: setattr(real, "gradient", s), lambda: real.gradient.__setitem__(Ellipsis, s), lambda: real.gradient_full.__setitem__(Ellipsis, s)][how]
        else:
            fn = [lambda: setattr(real, "gradient", v), lambda: real.gradient.__setitem__(slice(None), v), lambda: real.gradient_full.__setitem__(slice(None), v)][how]

        def apply(res):
            for (l, i), x in zip(scal, v):
                l.grad[i] = x
        self.act("write gradient", fn, apply, touched=[o.root()], text=o.hname())

    # --- constraints
    def op_constrain(self, st):
        t = self.target(st)
        if t is None:
            return
        desc, h, scal, o, idx = t
        if not scal:
            return
        key = tuple(st["key"])
        how = st.get("how", 0) % 2
        if key[0] == "Logexp" and how:
            fn = lambda: h.constrain_positive()
        elif key[0] == "NegativeLogexp" and how:
            fn = lambda: h.constrain_negative()
        elif key[0] == "Logistic" and how:
            fn = lambda: h.constrain_bounded(key[1], key[2])
        else:
            fn = lambda: h.constrain(make_t(key))
        old = [l.val[i] for l, i in scal]
        inside = [bool(in_domain(key, x)) for x in old]

        def apply(res):
            for (l, i), x, ok in zip(scal, old, inside):
                l.con[i] = key
                l.fix[i] = False
                if not ok:
                    l.val[i] = np.nan
        root = o.root()
        req = self.write_req(scal)
        silent = scal if not root_upd(o) else ()
        status, _ = self.act("constrain", fn, apply, req=req, touched=[root], silent=silent, text="%s %s" % (desc, key))
        if "domain" in self.groups and status == "ok":
            for (l, i), x, ok in zip(scal, old, inside):
                rv = float(np.asarray(l.real.values).ravel()[i])
                require(bool(in_domain(key, rv)) and (not ok or rv == x), "domain:constrain", lambda: "%s[%d] was %r and is %r after constraining it to %r" % (l.hname(), i, x, rv, key))

    def op_unconstrain(self, st):
        t = self.target(st)
        if t is None or not t[2]:
            return
        desc, h, scal, o, idx = t
        present = sorted({c for c in o.cons() if c is not None})
        how = st.get("how", 0) % 4
        key = self.pick(st.get("k", 0), present)
        if how == 0 or key is None:
            fn, keys, fixed = (lambda: h.unconstrain()), None, True
        else:
            keys, fixed = [key], False
            if key[0] == "Logexp" and how == 1:
                fn = lambda: h.unconstrain_positive()
            elif key[0] == "NegativeLogexp" and how == 1:
                fn = lambda: h.unconstrain_negative()
            elif key[0] == "Logistic" and how in (1, 2):
                fn = lambda: h.unconstrain_bounded(key[1], key[2])
            else:
                fn = lambda: h.unconstrain(make_t(key))

        def apply(res):
            for l, i in scal:
                if keys is None or l.con[i] in keys:
                    l.con[i] = None
                if fixed:
                    l.fix[i] = False
        self.act("unconstrain", fn, apply, touched=[o.root()], text="%s %s" % (desc, keys))

    def op_mark(self, st):
        """the index operation of the user, kept next to the constraints"""
        t = self.target(st)
        if t is None or not t[2]:
            return
        desc, h, scal, o, idx = t
        self.fault = None
        flat = np.array([sum(k.size for k in o.leaves()[:[id(q) for q in o.leaves()].index(id(l))]) + i for l, i in scal])
        if idx is None and st["k"] % 3 == 0 and len(flat) > 1:
            flat = np.sort(np.random.RandomState(st["k"] % (2 ** 31)).permutation(flat)[:1 + st["k"] % len(flat)])
        scal = [o.scalars()[i] for i in flat]
        tag = "p%d" % (st["k"] // 7 % 3)
        how = st["how"] % 6
        ops = o.real.priors
        if how < 3:
            fn = lambda: ops.add(tag, flat)
        elif how == 5:
            scal = o.scalars()
            fn = lambda: ops.clear()
        else:
            fn = lambda: ops.remove(tag, flat)
        had = sorted(int(i) for i in flat if tag in o.scalars()[i][0].pri[o.scalars()[i][1]])

        def apply(res):
            for l, i in scal:
                l.pri[i] = l.pri[i] | {tag} if how < 3 else frozenset() if how == 5 else l.pri[i] - {tag}
            if how in (3, 4):
                require(sorted(int(i) for i in res) == had, "cons:own-removed", lambda: "removing %s from %r of %s says %r, it was on %r" % (tag, flat, desc, res, had))
        self.act("mark", fn, apply, touched=[o.root()], quiet=True, text="%s %s %d" % (desc, tag, how))

    def op_fix(self, st):
        t = self.target(st)
        if t is None or not t[2]:
            return
        desc, h, scal, o, idx = t
        root = o.root()
        val = None
        if st.get("val"):
            v = self.values_for(scal, st["val"])
            if st["val"] % 2 and all(legal_ok(l.con[i], v[0]) for l, i in scal):
                v[:] = v[0]
                val = float(v[0])
            else:
                val = v.reshape(h.shape) if o.isleaf else v
        how = st.get("how", 0) % 3
        if val is None:
            fn = [lambda: h.fix(), lambda: h.constrain_fixed(), lambda: h.constrain(__fixed__)][how]
        else:
            fn = [lambda: h.fix(val), lambda: h.constrain_fixed(val), lambda: h.fix(value=val)][how]

        def apply(res):
            for j, (l, i) in enumerate(scal):
                l.fix[i] = True
                if val is not None:
                    l.val[i] = v[j]
        self.act("fix" if val is None else "fix to a value", fn, apply, req=self.write_req(scal) if val is not None else (), touched=[root], silent=scal if (val is not None and not root_upd(o)) else (), text="%s %s" % (desc, val))

    def op_unfix(self, st):
        t = self.target(st)
        if t is None or not t[2]:
            return
        desc, h, scal, o, idx = t

        def apply(res):
            for l, i in scal:
                l.fix[i] = False
        fn = [lambda: h.unfix(), lambda: h.unconstrain_fixed()][st.get("how", 0) % 2]
        self.act("unfix", fn, apply, touched=[o.root()], text=desc)

    # --- optimizer
    def entry_apply(self, scal, x, label):
        def apply(res):
            for (l, i), e in zip(scal, x):
                l.val[i] = e if l.con[i] is None else float(tf(l.con[i], e))
        return apply

    def settle(self, scal, x, label, tol=1e-9):
        """Compare the values written through an optimizer vector with the transformation of its entries; take the real ones."""
        for (l, i), e in zip(scal, x):
            rv = float(np.asarray(l.real.values).ravel()[i])
            want = l.val[i]
            if self.groups & {"domain", "values", "opt", "optread"}:
                scale = max(1.0, abs(want), 0 if l.con[i] is None or l.con[i][0] != "Logistic" else abs(l.con[i][1]) + abs(l.con[i][2]))
                require(abs(rv - want) <= tol * scale, "domain:entry", lambda: "%s[%d] under %r is %r after writing the entry %r in %s, expected %r" % (l.hname(), i, l.con[i], rv, e, label, want))
                if l.con[i] is not None and l.con[i][0] in ("Logexp", "Exponent", "NegativeLogexp", "NegativeExponent"):
                    require(rv != 0, "domain:entry", lambda: "%s[%d] under %r is 0 after writing the entry %r in %s" % (l.hname(), i, l.con[i], e, label))
                if l.con[i] is None:
                    require(rv == want, "domain:entry", lambda: "unconstrained %s[%d] is %r after writing the entry %r in %s" % (l.hname(), i, rv, e, label))
            l.val[i] = rv

    def op_setopt(self, st):
        o = self.pick(st["t"], [x for x in self.objs if x.size > 0])
        if o is None:
            return
        scal = o.free()
        extreme = bool(st.get("extreme"))
        x = self.entries_for(scal, st["seed"], extreme)
        if st.get("roundtrip"):
            x = np.array(o.real.optimizer_array, dtype=float)
            if x.size != len(scal) or not np.all(np.isfinite(x)):
                return
        root = o.root()
        keep = x.copy()
        before = np.array([l.val[i] for l, i in scal])
        status, _ = self.opt_write(o, scal, x, root, "optimizer vector", lambda: setattr(o.real, "optimizer_array", x))
        if status != "ok":
            return
        require(same(x, keep), "optread:argument-altered", lambda: "setting optimizer_array of %s altered the vector given: %r" % (o.hname(), x)) if "optread" in self.groups else None
        if st.get("roundtrip"):
            after = np.array([l.val[i] for l, i in scal])
            if "optread" in self.groups:
                sc = np.array([max(1.0, abs(b)) if l.con[i] is None or l.con[i][0] != "Logistic" else max(1.0, abs(l.con[i][1]), abs(l.con[i][2])) for (l, i), b in zip(scal, before)]) if len(scal) else np.zeros(0)
                require(bool(np.all(np.abs(after - before) <= 1e-7 * sc)), "optread:roundtrip", lambda: "writing back the vector just read changed %s from %r to %r" % (o.hname(), before, after))
        elif not extreme and "optread" in self.groups and len(scal):
            got = np.array(o.real.optimizer_array, dtype=float)
            require(got.shape == keep.shape and close(got, keep, 1e-6, 1e-6), "optread:written", lambda: "wrote %r to %s, read back %r" % (keep, o.hname(), got))

    def opt_write(self, o, scal, x, root, name, fn):
        apply = self.entry_apply(scal, x, name)
        req = self.write_req(scal)
        upd = root_upd(o)
        status, r = self.act(name, fn, apply, req=req, exact=root.nodes(), touched=[root], silent=scal if not upd else (), text="%s <- %s" % (o.hname(), x))
        if status == "ok":
            self.settle(scal, x, name)
        return status, r

    def op_readopt(self, st):
        o = self.pick(st["t"], [x for x in self.objs if x.size > 0])
        if o is None:
            return
        self.fault = None
        self.sim.op("read vector")
        self.opname = self.sim.current = "read vector"
        x = o.real.optimizer_array
        self.snaps.append((x, np.array(x), o.hname()))
        self.snaps = self.snaps[-6:]

    def op_export(self, st):
        """save(), onto a simulated disk"""
        from . import h5stub
        o = self.pick(st["t"], [x for x in self.objs if x.size > 0])
        if o is None:
            return
        D, name = h5stub.DISK, "/sim/%d.hdf5" % st["file"]
        def rel(l):
            parts = [adjust(l.name)]
            while l is not o and l.parent is not o:
                l = l.parent
                parts.insert(0, adjust(l.name))
            return "_".join(parts)
        names = [rel(l).replace(".", "_") for l in o.leaves()]
        want = dict(zip(names, [np.reshape(l.val, l.shape) for l in o.leaves()]))
        unique = len(set(names)) == len(names) and "param_array" not in names
        D.arm(*(st.get("disk") or [None]))
        self.fault = None
        self.sim.op("export")
        self.opname = self.sim.current = "export"
        status, r = "ok", None
        try:
            o.real.save(name)
        except BaseException as e:
            if isinstance(e, (Violation, HarnessBug, MemoryError)):
                raise
            status, r = "exc", e
        exc, D.fail = D.exc, None
        self.sim.ev("export", o.hname(), names, status)
        if exc is not None:
            self.sim.fault("disk:" + ("interrupt" if isinstance(exc, KeyboardInterrupt) else "full"))
        require(not D.open, "export:left-open", lambda: "after saving %s (%s) the file is still open" % (o.hname(), "raised %r" % r if r is not None else "returned"))
        D.open = []
        if status == "exc":
            if exc is None and unique:
                raise r
            self.sim.probe("refused: two parameters would get one name" if exc is None else "failed with the disk")
            return
        require(exc is None, "export:silent", lambda: "saving %s returned although the disk failed: %r" % (o.hname(), exc))
        got = D.files.get(name)
        require(got is not None, "export:no-file", lambda: "saving %s returned, but there is no file" % o.hname())
        require(unique, "export:lost", lambda: "%s has parameters that would get the same name, %r, and saving it returned" % (o.hname(), names))
        for k in names:
            require(k in got and got[k].shape == want[k].shape and same(got[k], want[k]), "export:values", lambda: "under %s the file has %r, the parameter is %r" % (k, got.get(k), want[k]))
        full = np.concatenate([l.val.ravel() for l in o.leaves()])
        require("param_array" in got and same(np.ravel(got["param_array"]), full), "export:vector", lambda: "param_array is %r, the values are %r" % (got.get("param_array"), full))
        self.sim.probe("files compared")

    def op_randomize(self, st):
        o = self.pick(st["t"], [x for x in self.objs if x.size > 0])
        if o is None:
            return
        scal = o.free()
        x = self.entries_for(scal, st["seed"], bool(st.get("extreme")))
        root = o.root()
        how = st.get("how", 0) % 2
        if how and not any(l.con[i] is not None and l.con[i][0] == "Square" for l, i in scal):
            np.random.seed(st["seed"] % (2 ** 31))
            x = np.random.normal(size=len(scal))
            np.random.seed(st["seed"] % (2 ** 31))
            fn = lambda: o.real.randomize()
        else:
            fn = lambda: o.real.randomize(rand_gen=lambda size: x.copy())
        apply = self.entry_apply(scal, x, "randomize")
        upd = root_upd(o)
        status, _ = self.act("randomize", fn, apply, req=self.write_req(scal), touched=[root], silent=scal if not upd else (), text=o.hname())
        if status == "ok":
            self.settle(scal, x, "randomize")
        if "notify" in self.groups:
            bad = [n.hname() for n in root.all() if bool(n.real.update_model()) != upd]
            require(not bad, "notify:updates-switch", lambda: "randomize left updates switched on=%r at %s" % (not upd, bad))

    def op_updates(self, st):
        o = self.pick(st["t"], self.objs)
        toggle = st.get("toggle", 0)
        on = bool(st["on"]) if not toggle else not o.upd
        root = o.root()

        def apply(res):
            for n in root.all():
                n.upd = on
        was = root_upd(o)
        nodes = root.nodes()
        self.opname = "updates"
        for n in root.all():
            n.upd = on if on else n.upd
        status, _ = self.act("updates on" if on else "updates off", (lambda: o.real.update_model(on)) if not toggle else o.real.update_toggle if toggle == 1 else o.real.toggle_update, apply, req=nodes if on and root.size else [], touched=[root], text=o.hname())
        if status == "fault":
            for n in root.all():
                n.upd = on
        if "notify" in self.groups:
            bad = [n.hname() for n in root.all() if bool(n.real.update_model()) != on]
            require(not bad, "notify:updates-switch", lambda: "updates are %r at %s after switching them %r from %s" % (not on, bad, on, o.hname()))

    def op_optimize(self, st):
        cands = [m for m in self.objs if m.kind == "model" and m.parent is None and m.free()]
        m = self.pick(st["t"], cands)
        if m is None:
            return
        scal = m.free()
        rs = np.random.RandomState(st["seed"] % (2 ** 31))
        n = 1 + rs.randint(6)
        pts = [self.entries_for(scal, int(rs.randint(2 ** 30))) for _ in range(n)]
        final = self.entries_for(scal, int(rs.randint(2 ** 30)))
        script = [("fgb"[rs.randint(3)], p) for p in pts]
        stop = None
        ft = st.get("fault") or {}
        if ft.get("on") == "optimizer":
            stop = (ft["n"] % n, EXCS[ft["exc"]]("injected into the optimizer"))
        opt = zoo.Scripted(script, final, stop)
        sim = self.sim
        self.opname = sim.current = "optimize"
        sim.op("optimize")
        old = self.snapshot()
        for q in m.all():
            q.upd = True
        status, res = self.call(lambda: m.real.optimize(optimizer=opt, messages=False))
        sim.ev("optimize", m.hname(), status, len(self.calls))
        if status == "exc" and stop is not None and res is stop[1]:
            sim.fault("optimizer raises " + ft["exc"])
            status = "fault"
        if status == "exc":
            import traceback
            raise Violation("exc:%s:optimize" % type(res).__name__, "".join(traceback.format_exception(type(res), res, res.__traceback__))[-3000:])
        sim.choice("optimize", status, len(self.calls))
        if status == "ok":
            self.entry_apply(scal, final, "optimize")(None)
            self.settle(scal, final, "optimize")
            for q in m.nodes():
                q.dirty = q.dirty and not any(q is d for d in self.done)
            if self.fault_exc is not None:
                self.taint([m])
        else:
            start = {id(l): old[id(l)][0] for l in m.leaves()}
            vis = [final] + pts
            for j, (l, i) in enumerate(scal):
                rv = float(np.asarray(l.real.values).ravel()[i])
                cand = [start[id(l)][i]] + [p[j] if l.con[i] is None else float(tf(l.con[i], p[j])) for p in vis]
                # the start vector itself goes through the transformation and back
                ok = any(abs(rv - c) <= 1e-7 * max(1.0, abs(c), 0 if l.con[i] is None or l.con[i][0] != "Logistic" else abs(l.con[i][1]) + abs(l.con[i][2])) for c in cand)
                if self.groups & {"values", "opt", "domain", "optread"}:
                    require(ok, "opt:failed-run", lambda: "%s[%d] is %r after a failed optimization which visited %r" % (l.hname(), i, rv, cand))
                l.val[i] = rv
            self.taint([m])
            sim.probe("failed operations")

    # --- copying and saving
    def op_copy(self, st):
        if len(self.objs) > 34:
            return
        o = self.pick(st["t"], self.objs)
        if o is None:
            return
        how = st.get("how", 0) % 4
        cached = any(n.kind == "cnode" for n in o.root().all())
        if how == 3 and o.parent is None and not cached:
            proto = st.get("proto", 2)
            name, fn = "save and load", lambda: pickle.loads(pickle.dumps(o.real, proto))
        else:
            name, fn = "copy", lambda: o.real.copy()
        if name == "copy" and not root_upd(o) and st.get("noff"):
            return
        got = {}

        def apply(res):
            got["real"] = res
        status, res = self.act(name, fn, apply, touched=[], text=o.hname())
        if status == "fault":
            # nothing but garbage was made
            return
        real = res
        self.keep.append(real)
        if "copy" in self.groups:
            require(type(real) is type(o.real), "copy:type", lambda: "copy of %s is a %s" % (o.hname(), type(real)))
            require(not real.has_parent(), "copy:parent", lambda: "the copy of %s still has a parent" % o.hname())
            require(real.name == o.name, "copy:name", lambda: "the copy of %s is called %s" % (o.hname(), real.name))
        n0 = len(self.objs)
        c = self.adopt(real, o)
        for n in c.nodes():
            n.dirty = not n.upd or n.size == 0

    def op_cached(self, st):
        """cached methods of copies compute from the copy"""
        n = self.pick(st["t"], [x for x in self.objs if x.kind == "cnode"])
        l = self.pick(st.get("u", 0), self.leaves())
        if n is None or l is None:
            return
        self.fault = None
        self.opname = self.sim.current = "cached call"
        self.sim.op("cached call")
        zoo.WORLD[0] = None
        for f, nm in ((n.real.attached, "attached"), (n.real.decorated, "decorated")):
            who, s = f(l.real)
            if "copy" in self.groups:
                require(who == id(n.real), "copy:foreign-method", lambda: "the %s cached method of %s ran on another object" % (nm, n.hname()))
                # a parameter switched off notifies nobody, its changes are not seen by design
                if root_upd(l) and not getattr(l, "tag", None):
                    pass

    # --- observable arrays held by the objects, or by nobody
    def adopt_stuff(self, r, src, memo):
        got = r.real.__dict__.get("stuff")
        if "copy" in self.groups:
            require(isinstance(got, dict) and sorted(got) == ["a", "note"], "copy:attribute", lambda: "the copy of %s holds %r" % (src.hname(), got))
            require(type(got["a"]) is type(self.arrs[src.stuff[0]]["real"]), "copy:attribute", lambda: "the array of the copy of %s is a %s" % (src.hname(), type(got["a"])))
            mine, its = r.real.__dict__.get("plain"), src.real.__dict__["plain"]
            require(type(mine) is np.ndarray and np.array_equal(mine, its), "copy:attribute", lambda: "the copy of %s holds the data %r" % (src.hname(), mine))
            mine[1] += 1
            require(its[1] == 1, "copy:attribute", lambda: "%s and its copy hold the same data" % src.hname())
            mine[1] -= 1
        i = memo.get(src.stuff[0])
        if i is None:
            i = memo[src.stuff[0]] = len(self.arrs)
            self.arrs.append(dict(real=got["a"], val=self.arrs[src.stuff[0]]["val"].copy(), watch=[]))
        elif "copy" in self.groups:
            require(got["a"] is self.arrs[i]["real"], "copy:sharing", lambda: "two objects of the original hold one array, their copies two")
        r.stuff = (i, list(src.stuff[1]))

    def new_arr(self, real, val):
        self.arrs.append(dict(real=real, val=val, watch=[]))
        return len(self.arrs) - 1

    def op_data(self, st):
        import copy
        from paramz import ObsAr
        self.fault = None
        self.opname = self.sim.current = "arrays"
        self.sim.op("arrays")
        k, v = st["k"] % 10, rnd(st["seed"], 3)
        o = self.pick(st["t"], self.objs)
        a = self.pick(st["u"], list(range(len(self.arrs))))
        if k < 2 or a is None:
            if len(self.arrs) > 40 or o is None or o.stuff is not None:
                return
            if k % 2 == 0 or a is None:
                val = v.reshape([(3,), (1, 3), (3, 1)][st["seed"] % 3])
                a = self.new_arr(ObsAr(val.copy()), val)
            o.real.stuff = dict(a=self.arrs[a]["real"], note=[1])
            o.real.plain = np.arange(float([3, 70, 5000][st["seed"] % 3]))
            o.stuff = (a, [1])
            return
        A = self.arrs[a]
        if k == 2:
            w = ArrWatch()
            A["real"].add_observer(w, w.told, st["seed"] % 3 - 1)
            A["watch"].append(w)
        elif k == 3 and len(self.arrs) < 40:
            how = st["seed"] % 4
            real = A["real"].copy() if how < 2 else copy.deepcopy(A["real"]) if how == 2 else pickle.loads(pickle.dumps(A["real"], st["seed"] % 6))
            if "copy" in self.groups:
                require(type(real) is type(A["real"]) and real is not A["real"], "copy:array", lambda: "a copy of an array is %r" % type(real))
            self.new_arr(real, A["val"].copy())
        elif k == 4:
            r = self.pick(st["t"], [x for x in self.objs if x.stuff is not None])
            if r is not None:
                r.real.stuff["note"].append(st["seed"])
                r.stuff[1].append(st["seed"])
        else:
            told = [[w.n for w in B["watch"]] for B in self.arrs]
            how = st["seed"] % 6
            if how == 0:
                A["real"][...] = v.reshape(A["val"].shape)
                A["val"][...] = v.reshape(A["val"].shape)
            elif how == 1:
                A["real"][0] = v[0]
                A["val"][0] = v[0]
            elif how == 2:
                A["real"][...] += v[0]
                A["val"][...] += v[0]
            elif how == 3:
                A["real"].flat[1] = v[1]
                A["val"].flat[1] = v[1]
            elif how == 4:
                x = A["real"]
                x *= v[0]
                A["val"] *= v[0]
            else:
                A["real"][A["real"].values > 0] = v[2]
                A["val"][A["val"] > 0] = v[2]
            for i, B in enumerate(self.arrs):
                for w, n in zip(B["watch"], told[i]):
                    if i != a and "copy" in self.groups:
                        require(w.n == n, "copy:told", "an observer of an array was told of a change to a copy of it, or to its original")
                    elif i == a and how != 3 and "copy" in self.groups:
                        require(w.n > n, "copy:not-told", "an observer of an array was not told of a change")

    def verify_arrs(self, ctx):
        for i, A in enumerate(self.arrs):
            require(same(np.asarray(A["real"].values), A["val"]), "copy:array-changed", lambda: "array %d is %r, should be %r after %s" % (i, A["real"].values, A["val"], ctx))
        for r in self.objs:
            if r.stuff is not None:
                got = r.real.stuff
                require(got["a"] is self.arrs[r.stuff[0]]["real"] and got["note"] == r.stuff[1], "copy:attribute-changed", lambda: "%s holds %r after %s" % (r.hname(), got, ctx))

    # --- selections
    def op_grep(self, st):
        roots = [r for r in self.roots() if not r.isleaf and len(r.leaves()) >= 2]
        r = self.pick(st["t"], roots)
        if r is None:
            return
        self.fault = None
        pats = [".*", "^[^.]*$", ".*\\..*"] + [".*" + re.escape(adjust(l.name)) for l in r.all()[1:]] + [".*" + c for c in "abcxyz"] + [".*(a|b)"]
        pat = pats[st["k"] % len(pats)]
        if st.get("compiled"):
            pat_arg = re.compile(pat)
        else:
            pat_arg = pat
        hits = [o for o in r.all()[1:] if re.match(pat, o.path())]
        members = []
        for o in hits:
            for l in o.leaves():
                if not any(l is m for m in members):
                    members.append(l)
        self.opname = self.sim.current = "select"
        self.sim.op("select")
        if not members or not hits:
            if not hits:
                self.reject("select nothing", lambda: r.real[pat_arg], Exception, pat)
            return
        h = r.real[pat_arg]
        if len(hits) == 1:
            if "names" in self.groups or "concat" in self.groups:
                require(h is hits[0].real, "concat:single", lambda: "the pattern %r of %s found %r" % (pat, r.name, type(h)))
            if not hits[0].isleaf:
                return
            return
        order = [l for l in r.leaves() if any(l is m for m in members)]
        if "concat" in self.groups:
            require(isinstance(h, ParamConcatenation), "concat:type", lambda: "the pattern %r of %s found %r" % (pat, r.name, type(h)))
            got = list(h.flattened_parameters) if hasattr(h, "flattened_parameters") else None
        self.handles.append((h, order, pat, r))
        self.handles = self.handles[-4:]
        self.sim.probe("selections held")

    def op_handle(self, st):
        if not self.handles:
            return
        h, members, pat, r = self.handles[st["t"] % len(self.handles)]
        scal = [s for m in members for s in m.scalars()]
        n = len(scal)
        req = self.write_req(scal)
        upd = r.upd
        k = st["k"] % 22
        old = np.array([l.val[i] for l, i in scal])
        v = self.values_for(scal, st["seed"])
        free_of_constraints = not any(l.con[i] for l, i in scal)
        name, sel, new = None, None, None
        con = None
        if k in (0, 1):
            name, sel, new, fn = "selection write", list(range(n)), v, lambda: h.__setitem__(slice(None), v)
        elif k == 2:
            a = st["seed"] % n
            b = a + 1 + (st["seed"] // 5) % (n - a)
            name, sel, new, fn = "selection write by slice", list(range(a, b)), v[a:b], lambda: h.__setitem__(slice(a, b), v[a:b])
        elif k == 3:
            m = np.random.RandomState(st["seed"]).uniform(size=n) < 0.5
            if not m.any():
                m[n - 1] = True
            ix = np.where(m)[0]
            arg = m if st["seed"] % 2 else ix
            name, sel, new, fn = "selection write by mask", list(ix), v[ix], lambda: h.__setitem__(arg, v[ix])
        elif k == 4:
            i = st["seed"] % n
            name, sel, new, fn = "selection write by index", [i], v[i:i + 1], lambda: h.__setitem__(i, float(v[i]))
        elif k in (5, 6) and free_of_constraints and st["seed"] % 3 == 0 and isinstance(h, ParamConcatenation):
            others = [q for q in self.handles if q[0] is not h and isinstance(q[0], ParamConcatenation) and sum(m.size for m in q[1]) == n]
            g, gm = (h, members) if not others else others[st["seed"] // 3 % len(others)][:2]
            ix = self.pick(st["seed"] // 9, [slice(None), slice(None, None, -1), np.random.RandomState(st["seed"]).permutation(n)])
            sel, new = list(np.arange(n)[ix]), np.concatenate([m.val for m in gm])
            name, fn = "selection written with a selection", lambda: h.__setitem__(ix, g)
        elif k in (5, 6, 7) and free_of_constraints:
            sym, c = self.inplace_op(st["seed"], old)
            if k != 5 and sym != "**":
                c = c + rnd(st["seed"] + 1, n, 0.1, 1.0)

            def fn(c=c):
                require(INPLACE[sym](h, c) is h, "concat:in-place", lambda: "%s= on the selection %r gives another object" % (sym, pat))
            name, sel, new = "selection in place %s=" % sym, list(range(n)), INPLACE[sym](old.copy(), c)
        elif k in (5, 6, 7):
            pn = "^" + pat
            name, sel, new, fn = "write by pattern, many", list(range(n)), v, lambda: r.real.__setitem__(pat, v)
        elif k == 8:
            con, fn = ("Logexp",), lambda: h.constrain_positive()
        elif k == 9:
            con, fn = ("NegativeLogexp",), lambda: h.constrain_negative()
        elif k == 10:
            con, fn = ("Logistic", -2.0, 5.0), lambda: h.constrain_bounded(-2.0, 5.0)
        elif k == 11:
            con, fn = ("Exponent",), lambda: h.constrain(Exponent())
        elif k == 12:
            name, fn = "selection fix", lambda: h.fix()

            def apply(res):
                for l, i in scal:
                    l.fix[i] = True
            self.act(name, fn, apply, touched=[r], text=pat)
            return
        elif k == 13:
            name, fn = "selection unfix", (lambda: h.unfix()) if st["seed"] % 2 else (lambda: h.unconstrain_fixed())

            def apply(res):
                for l, i in scal:
                    l.fix[i] = False
            self.act(name, fn, apply, touched=[r], text=pat)
            return
        elif k == 14:
            name, fn = "selection unconstrain", lambda: h.unconstrain()

            def apply(res):
                for l, i in scal:
                    l.fix[i] = False
                    l.con[i] = None
            self.act(name, fn, apply, touched=[r], text=pat)
            return
        elif k in (16, 17):
            present = sorted({l.con[i] for l, i in scal if l.con[i] is not None})
            key = self.pick(st["seed"], present)
            if key is None:
                key = ("Logexp",)
            if key[0] == "Logistic" and st["seed"] % 3:
                fn = lambda: h.unconstrain_bounded(key[1], key[2])
            elif key[0] == "Logexp" and st["seed"] % 3:
                fn = lambda: h.unconstrain_positive()
            elif key[0] == "NegativeLogexp" and st["seed"] % 3:
                fn = lambda: h.unconstrain_negative()
            else:
                fn = lambda: h.unconstrain(make_t(key))

            def apply(res):
                for l, i in scal:
                    if l.con[i] == key:
                        l.con[i] = None
            self.act("selection unconstrain one kind", fn, apply, touched=[r], text="%s %s" % (pat, key))
            return
        elif k in (18, 19):
            shapes = {m.shape for m in members}
            val = rnd(st["seed"], members[0].size).reshape(members[0].shape)
            if len(shapes) > 1 or k == 18:
                val = float(val.flat[0])
            want = np.concatenate([np.broadcast_to(val, m.shape).ravel() for m in members])
            if not all(legal_ok(l.con[i], x) for (l, i), x in zip(scal, want)):
                return

            def apply(res):
                for (l, i), x in zip(scal, want):
                    l.val[i] = x
                    l.fix[i] = True
            self.act("selection fix to a value", (lambda: h.fix(val)) if st["seed"] % 2 else (lambda: h.constrain_fixed(value=val)), apply, req=req, touched=[r], silent=scal if not upd else (), text="%s %s" % (pat, val))
            return
        elif k in (20, 21):
            x = old[st["seed"] % n]
            got = [np.asarray(q, dtype=bool).ravel() for q in (h < x, h <= x, h > x, h >= x, h == x, h != x)]
            for g, w, t in zip(got, (old < x, old <= x, old > x, old >= x, old == x, old != x), ("<", "<=", ">", ">=", "==", "!=")):
                require("concat" not in self.groups or same(g, w), "concat:compare", lambda: "the selection %r %s %r gives %r, its members say %r" % (pat, t, x, g, w))
            return
        else:
            self.reject("selection write of the wrong size", lambda: h.__setitem__(slice(None), np.ones(n + 1)), Exception, pat)
            return
        if con is not None:
            inside = [bool(in_domain(con, x)) for x in old]

            def apply(res):
                for (l, i), ok in zip(scal, inside):
                    l.con[i] = con
                    l.fix[i] = False
                    if not ok:
                        l.val[i] = np.nan
            self.act("selection constrain", fn, apply, req=req, touched=[r], silent=scal if not upd else (), text="%s %s" % (pat, con))
            if self.fault_exc is None and self.groups & {"domain", "concat"}:
                for l, i in scal:
                    require(bool(in_domain(con, l.val[i])), "domain:constrain", lambda: "%s[%d] is %r after constraining the selection %r to %r" % (l.hname(), i, l.val[i], pat, con))
            return
        tgt = [scal[i] for i in sel]

        def apply(res):
            for (l, i), x in zip(tgt, new):
                l.val[i] = x
        # partial selections may tell all parents of the selection
        self.act(name, fn, apply, req=self.write_req(tgt), touched=[r], silent=tgt if not upd else (), text="%s %s" % (pat, sel))

    # --- rejections
    def op_reject(self, st):
        self.fault = None
        k = st["k"] % 20
        nodes = self.nodes()
        o = self.pick(st["t"], [x for x in self.objs if x.size > 0])
        if o is None:
            return
        n = self.pick(st["u"], nodes)
        d = o.hname()
        if k == 0:
            self.reject("constrain by nonsense", lambda: o.real.constrain("positive"), Exception, d)
        elif k == 1:
            self.reject("constrain by nothing", lambda: o.real.constrain(None), Exception, d)
        elif k == 2:
            self.reject("inverted bounds", lambda: o.real.constrain_bounded(3.0, 1.0), Exception, d)
        elif k == 3:
            self.reject("equal bounds", lambda: o.real.constrain_bounded(1.5, 1.5), Exception, d)
        elif k == 4:
            self.reject("undefined bounds", lambda: o.real.constrain_bounded(float("nan"), 1.0), Exception, d)
        elif k == 5:
            self.reject("optimizer vector too long", lambda: setattr(o.real, "optimizer_array", np.ones(len(o.free()) + 1 + st["v"] % 3)), Exception, d)
        elif k == 6:
            f = len(o.free())
            if f >= 2:
                self.reject("optimizer vector too short", lambda: setattr(o.real, "optimizer_array", np.ones(max(1, f - 1 - st["v"] % 2) if f > 1 else 0)), Exception, d)
        elif k == 7 and o.isleaf:
            self.reject("values of the wrong size", lambda: o.real.__setitem__(slice(None), np.ones((o.size + 1,) + o.shape[1:])), Exception, d)
        elif k == 8 and not o.isleaf:
            self.reject("flat values of the wrong size", lambda: o.real.__setitem__(slice(None), np.ones(o.size + 2)), Exception, d)
        elif k == 9:
            self.reject("look up an unknown name", lambda: n.real["no_such_name"], AttributeError, n.hname())
        elif k == 10:
            self.reject("set an unknown name", lambda: n.real.__setitem__("no_such_name", 1.0), AttributeError, n.hname())
        elif k == 11:
            if o.root().kind != "model":
                self.reject("gradient check without a model", lambda: o.real.checkgrad(), Exception, d)
        elif k == 12:
            if o.parent is not n:
                self.reject("unlink a non-child", lambda: n.real.unlink_parameter(o.real), Exception, "%s from %s" % (d, n.hname()))
        elif k == 13:
            anc = o.ancestors()
            a = self.pick(st["v"], anc)
            if a is not None and not o.isleaf:
                self.reject("link an ancestor below itself", lambda: o.real.link_parameter(a.real), HierarchyError, "%s into %s" % (a.hname(), d))
            elif not o.isleaf:
                self.reject("link into itself", lambda: o.real.link_parameter(o.real), HierarchyError, d)
        elif k == 14:
            bad = ["1a", "a#b", "x=y"][st["v"] % 3]
            if o.parent is not None:
                self.reject("rename to an unusable name", lambda: setattr(o.real, "name", bad), Exception, d)
        elif k == 15:
            bad = ["1a", "a#b", "x=y"][st["v"] % 3]
            p = Param(bad, np.ones(1 + st["v"] % 2)) if st["v"] % 2 else zoo.Node(bad)
            self.xkeep.append(p)
            self.reject("link with an unusable name", lambda: n.real.link_parameter(p), Exception, n.hname())
            require(not p.has_parent(), "reject:half-linked", "a parameter which could not be linked has a parent")
        elif k in (16, 17):
            class Stop(Exception):
                pass
            seen = []

            def visit(x):
                seen.append(x)
                if len(seen) > st["v"] % 4:
                    raise Stop()
            f = o.real.traverse if k == 16 else o.real.traverse_parents
            cnt = []
            f(cnt.append)
            if len(cnt) > st["v"] % 4:
                self.reject("visitor raises in " + ("traverse" if k == 16 else "traverse_parents"), lambda: f(visit), Stop, d)
                again = []
                f(again.append)
                require(len(again) == len(cnt) and all(a is b for a, b in zip(again, cnt)), "reject:traversal", lambda: "after a visitor raised, a traversal from %s visits %d of %d objects" % (d, len(again), len(cnt)))
        elif k == 18:
            self.reject("link something else", lambda: n.real.link_parameter(5), Exception, n.hname())
        elif k == 19:
            self.reject("updates neither on nor off", lambda: o.real.update_model(3), Exception, d)

    def verify_traversal(self):
        for r in self.roots():
            seen = []
            r.real.traverse(seen.append)
            want = [o.real for o in r.all()]
            require(len(seen) == len(want) and all(a is b for a, b in zip(seen, want)), "reject:traversal",
                    lambda: "traversing %s visits %d objects, expected %d after %s" % (r.hname(), len(seen), len(want), self.opname))


def legal_ok(key, v):
    return key is None or bool(in_domain(key, v)) and v != 0


def root_upd(o):
    return o.upd
