"""Hierarchy scenario: random histories of operations with callback faults, checked against the reference model."""
import contextlib, io
from .core import Violation, require

OPS = ["link", "build", "unlink", "rename", "write", "gradient", "constrain", "unconstrain", "fix", "unfix", "setopt", "readopt", "randomize",
       "updates", "optimize", "copy", "cached", "data", "grep", "handle", "reject"]
BASE = dict(link=12, build=3, unlink=4, rename=3, write=12, gradient=1, constrain=10, unconstrain=4, fix=5, unfix=4, setopt=6, readopt=1, randomize=2,
            updates=2, optimize=2, copy=3, cached=0, data=0, grep=3, handle=5, reject=3, mark=0, export=0)
EMPH = {
    "C01": dict(gradient=8, write=20, setopt=8, link=16, unlink=7),
    "C02": dict(constrain=18, fix=12, unfix=10, unconstrain=10, link=16, unlink=7, copy=4),
    "C03": dict(fix=14, unfix=8, setopt=14, randomize=5, optimize=5),
    "C04": dict(constrain=20, setopt=16, randomize=5, optimize=4),
    "C05": dict(setopt=16, readopt=8, updates=4, write=16, constrain=12),
    "C07": dict(write=20, setopt=10, updates=8, constrain=12, fix=8),
    "C14": dict(write=14, constrain=12, link=14),
    "C15": dict(copy=12, write=16, cached=6, data=14),
    "C17": dict(reject=30, link=18),
    "C18": dict(rename=14, link=22, unlink=9),
    "C22": dict(grep=14, handle=34),
    "C27": dict(export=40, rename=8, link=16),
    "C26": dict(grep=8, constrain=16, fix=8, rename=8, link=16, updates=4),
}
GROUPS = {
    "C01": ("values", "grads"), "C02": ("cons",), "C03": ("opt", "values"), "C04": ("domain",), "C05": ("optread",), "C07": ("notify",),
    "C15": ("copy", "values", "cons", "notify", "names", "opt"), "C17": ("reject", "values", "cons", "names", "opt", "notify", "optread"), "C18": ("names",),
    "C14": ("values", "cons", "opt", "optread", "names", "notify", "save"),
    "C26": ("print",),
    "C27": ("export", "values"),
    "C22": ("concat", "values", "cons", "notify", "domain"),
}
NAMES = ["a", "b", "c", "a", "b_1", "x y", "kern", "a_1", "z-w", "rbf", "lengthscale", "a_9"]
# names that meet once converted to identifiers, and names that an object of the library has an attribute of
ODD = ["x_y", "x y", "x.y", "x(y)", "x_of_y", "z_m_w", "a*b", "a_x_b", "a+b!", "size", "gradient", "cache", "observers", "logger", "obj_grads", "verbose", "checkgrad", "fix", "name_", "tag", "b 1", "a_99"]
CONS = [["Logexp"], ["NegativeLogexp"], ["Exponent"], ["NegativeExponent"], ["Square"], ["Logistic", 0.0, 1.0], ["Logistic", -2.0, 5.0], ["Logistic", -2.0, 5.5], ["Logexp"]]
WIDE = ("C01", "C02", "C04", "C05", "C15")
SHAPES = [[1], [2], [3], [1], [4], [2, 2], [1, 3], [3, 1], [2, 3], [2, 3, 2], [1, 2, 3]]


class HierScenario(object):
    def __init__(self, prop):
        self.prop = prop

    def generate(self, rng, tier):
        big = tier == "thorough" and rng.random() < 0.4
        self.names = NAMES + ODD if self.prop in ("C18", "C27") and rng.random() < 0.4 else NAMES
        crowd = self.prop == "C18" and rng.random() < 0.05      # so many of one name that the suffixes get two digits
        if crowd:
            self.names = [rng.choice(NAMES)] * 30 + NAMES
        nl, nn = rng.randint(2, 9 if big else 6), rng.randint(2, 6 if big else 4)
        if crowd:
            nl, nn = rng.randint(11, 14), rng.randint(1, 2)
        init = []
        nodekind = "cnode" if self.prop == "C15" and rng.random() < 0.5 else "node"
        for i in range(nn):
            kind = "model" if (i == 0 and rng.random() < 0.7) else nodekind
            init.append(dict(k=kind, name="m" if i == 0 else rng.choice(self.names)))
        for i in range(nl):
            e = dict(k="leaf", name=rng.choice(self.names), shape=[1] if crowd else rng.choice(SHAPES), seed=rng.randrange(10 ** 6))
            if rng.random() < 0.15:
                e["dc"] = rng.choice(CONS)
            init.append(e)
        if self.prop in WIDE and rng.random() < 0.01:           # more scalars than a byte counts
            e = rng.choice([e for e in init if e["k"] == "leaf"])
            e["shape"] = rng.choice([[260], [131, 2]])
        steps = []
        # most runs start from a connected tree
        if rng.random() < 0.3:
            for _ in range(rng.randint(1, 2)):
                steps.append(self.one(rng, "build", False))
        order = list(range(1, nn + nl))
        if rng.random() < 0.3:
            rng.shuffle(order)
        for b in order:
            if rng.random() < 0.85:
                a = rng.randrange(min(b, nn)) if b < nn else rng.randrange(nn)
                steps.append(dict(op="link", a=a, b=b))
        w = dict(BASE)
        w.update(EMPH.get(self.prop, {}))
        if nodekind == "node":
            w["cached"] = 0
        own = self.prop in ("C02", "C14", "C15", "C26") and rng.random() < 0.3     # an index operation of the user's
        if own:
            w["mark"] = 14
        ops, ws = zip(*[(k, v) for k, v in w.items() if v])
        faulty = rng.random() < 0.6
        n = rng.randint(8, 60 if big else 26) if not crowd else rng.randint(4, 12)
        for _ in range(n):
            steps.append(self.one(rng, rng.choices(ops, ws)[0], faulty))
        # looking at the objects refreshes lazily computed state, so some runs look rarely or only at the end
        blind = rng.choice([0.0, 0.0, 0.3, 0.7, 1.0])
        for s in steps:
            if rng.random() < blind:
                s["look"] = False
        return dict(init=init, steps=steps, own=own)

    def one(self, rng, op, faulty):
        R = lambda: rng.randrange(10 ** 6)
        s = dict(op=op)
        if op == "link":
            s.update(a=R(), b=R())
            if rng.random() < 0.5:
                s["index"] = rng.choice([0, 0, 1, 2, 3, 7, -1, -2])
        elif op == "build":
            n = rng.choice([0, 1, 2, 2, 3, 4])
            s.update(parts=[[R(), rng.choice([None, None, 0, 0, 1, 2, -1])] for _ in range(n)], then=[rng.choice([0, 0, 1, 2, 3, 4]) for _ in range(n)], key=rng.choice(CONS),
                     at_once=rng.random() < 0.3, model=rng.random() < 0.4, late=rng.choice([0, 0, 0, 1, 2]), name=rng.choice(self.names))
        elif op == "unlink":
            s.update(a=R())
        elif op == "rename":
            s.update(a=R(), name=rng.choice(self.names))
        elif op == "write":
            s.update(t=R(), seed=R(), how=R(), leaf=rng.random() < 0.65)
            if rng.random() < 0.4:
                s["sub"] = 1 + R()
        elif op == "gradient":
            s.update(t=R(), seed=R(), how=R())
            if rng.random() < 0.5:
                s["sub"] = 1 + R()
        elif op in ("constrain", "unconstrain", "fix", "unfix"):
            s.update(t=R(), how=R(), k=R())
            if rng.random() < 0.4:
                s["sub"] = 1 + R()
            if op == "constrain":
                s["key"] = rng.choice(CONS)
            if op == "fix" and rng.random() < 0.4:
                s["val"] = 1 + R()
        elif op == "setopt":
            s.update(t=R(), seed=R())
            if rng.random() < 0.2:
                s["roundtrip"] = True
            if rng.random() < 0.15:
                s["extreme"] = True
        elif op == "mark":
            s.update(t=R(), how=R(), k=R())
            if rng.random() < 0.5:
                s["sub"] = 1 + R()
        elif op == "readopt":
            s.update(t=R())
        elif op == "randomize":
            s.update(t=R(), seed=R(), how=R())
        elif op == "updates":
            s.update(t=R(), on=rng.random() < 0.6, toggle=rng.choice([0, 0, 0, 1, 2]))
        elif op == "optimize":
            s.update(t=R(), seed=R())
        elif op == "copy":
            s.update(t=R(), how=R(), proto=rng.randint(0, 5))
        elif op == "cached":
            s.update(t=R(), u=R())
        elif op == "data":
            s.update(t=R(), u=R(), k=R(), seed=R())
        elif op == "grep":
            s.update(t=R(), k=R(), compiled=rng.random() < 0.3)
        elif op == "handle":
            s.update(t=R(), k=R(), seed=R())
        elif op == "export":
            s.update(t=R(), file=rng.randrange(3))
            if rng.random() < 0.5:
                s["disk"] = [rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 8, 12]), rng.choice(["full", "full", "interrupt"])]
        elif op == "reject":
            s.update(t=R(), u=R(), v=R(), k=R())
        if faulty and rng.random() < 0.25 and op in ("write", "constrain", "fix", "setopt", "randomize", "updates", "optimize", "copy", "handle"):
            on = "changed"
            if op == "optimize":
                on = rng.choice(["changed", "objective", "optimizer", "changed"])
            s["fault"] = dict(on=on, n=rng.choice([0, 0, 0, 1, 1, 2, 3, 5]), exc=rng.choice(["fault", "value", "linalg", "zero", "key", "interrupt"]))
        return s

    def execute(self, plan, sim):
        from . import world, zoo, h5stub
        with contextlib.redirect_stdout(io.StringIO()):
            zoo.OWN[0] = bool(plan.get("own"))
            h5stub.DISK.__init__()
            w = world.World(sim, plan, GROUPS[self.prop])
            w.opname = "creation"
            w.verify()
            for s in plan["steps"]:
                w.step(s)
                if self.prop == "C17" and s.get("look", True):
                    w.verify_traversal()
            w.verify()
            if self.prop == "C26":
                w.verify_print("the whole history", True)
        sim.ev("final", [str(r.shape_sig()) for r in w.roots()])
        if len(plan["steps"]) > 2:
            sim.nontrivial = True

    def cleanup(self):
        from . import zoo
        zoo.WORLD[0] = None
        zoo.OWN[0] = False
