"""Saving and loading (C14): hierarchy histories whose models are written to and read from a simulated disk."""
import builtins, contextlib, errno, io, os, pickle, shutil, tempfile
import numpy as np
from .core import Violation, InjectedInterrupt, require
from . import hier, world, zoo

_real_open = builtins.open
_real_ioopen = io.open


class FaultyRaw(io.FileIO):
    """A file on the simulated disk: data goes to a scratch file until the fault strikes."""
    def __init__(self, disk, path, mode):
        io.FileIO.__init__(self, path, mode)
        self.disk, self.pos = disk, 0
        disk.files.append(self)

    def write(self, b):
        d = self.disk
        b = bytes(b)
        f = d.fault
        if f is not None and f["kind"] in ("enospc", "eio", "interrupt") and d.written + len(b) > d.limit:
            k = max(0, d.limit - d.written)
            if k and not d.fired:
                io.FileIO.write(self, b[:k])
                d.written += k
            d.fire(f["kind"])
            if f["kind"] == "interrupt":
                raise InjectedInterrupt("while writing")
            raise OSError(errno.ENOSPC if f["kind"] == "enospc" else errno.EIO, "simulated disk")
        if f is not None and f["kind"] == "short" and len(b) > 1:
            b = b[:max(1, d.rng.randrange(len(b)))]
            d.fire("short", loud=False)
        n = io.FileIO.write(self, b)
        d.written += n
        return n

    def readinto(self, buf):
        d = self.disk
        f = d.fault
        if f is not None and f["kind"] == "read-short" and len(buf) > 1:
            d.fire("read-short", loud=False)
            n = io.FileIO.readinto(self, memoryview(buf)[:max(1, d.rng.randrange(len(buf)))])
        elif f is not None and f["kind"] == "read-eio" and d.nread >= d.limit:
            d.fire("read-eio")
            raise OSError(errno.EIO, "simulated disk")
        else:
            n = io.FileIO.readinto(self, buf)
        d.nread += n or 0
        return n

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n])

    def readall(self):
        out = b""
        while True:
            b = self.read(4096)
            if not b:
                return out
            out += b

    def close(self):
        d = self.disk
        was = self.closed
        io.FileIO.close(self)
        f = d.fault
        if not was and f is not None and f["kind"] == "close" and not d.fired and d.written:
            d.fire("close")
            raise OSError(errno.EIO, "simulated disk, on closing")


class Disk(object):
    def __init__(self, sim, root, rng):
        self.sim, self.root, self.rng = sim, os.path.realpath(root), rng
        self.arm(None)

    def arm(self, fault, limit=0):
        self.fault, self.limit = fault, limit
        self.written = self.nread = 0
        self.fired = []
        self.files = []

    def fire(self, kind, loud=True):
        if kind not in self.fired:
            self.sim.fault("disk " + kind)
            self.sim.ev("   disk", kind, "at", self.limit)
        self.fired.append(kind)

    def open(self, path, mode="r", *a, **k):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return _real_open(path, mode, *a, **k)
        if isinstance(p, bytes) or not p.startswith(self.root + os.sep) or "b" not in mode:
            return _real_open(path, mode, *a, **k)
        writing = any(c in mode for c in "wax+")
        if self.fault is not None and self.fault["kind"] == "open" and writing:
            self.fire("open")
            raise PermissionError(errno.EACCES, "simulated disk", path)
        raw = FaultyRaw(self, path, mode.replace("b", ""))
        return io.BufferedWriter(raw) if writing else io.BufferedReader(raw)

    @contextlib.contextmanager
    def mounted(self):
        builtins.open = io.open = self.open
        try:
            yield
        finally:
            builtins.open, io.open = _real_open, _real_ioopen


def signature(x):
    """what a model is, read through its public side: structure, names, shapes, values, constraints, fixes"""
    out = []
    def walk(y, path):
        if isinstance(y, np.ndarray):
            v = np.array(y, dtype=float)
            out.append((path, v.shape, v.tobytes()))
        cons = sorted((str(c), tuple(int(i) for i in idx)) for c, idx in y.constraints.items() if len(idx))
        out.append((path, type(y).__name__, y.name, cons))
        for i, c in enumerate(y.parameters):
            walk(c, path + (i,))
    walk(x, ())
    return out


class SaveWorld(world.World):
    def op_save(self, st):
        import paramz, random
        if len(self.objs) > 34:
            return
        o = self.pick(st["t"], [r for r in self.roots() if not r.isleaf or st["leaf"]])
        if o is None:
            return
        rng = random.Random(st["seed"])
        disk = Disk(self.sim, self.dir, rng)
        cached = any(n.kind == "cnode" for n in o.all())
        path = os.path.join(self.dir, "m%d.pickle" % (st["slot"] % 3))
        real, proto = o.real, st["proto"]
        before = signature(real)
        extra = None
        if st.get("junk"):
            extra = self.pick(st["seed"], [n for n in o.all() if not n.isleaf] or [o]).real
            extra.__dict__["user_data"] = (lambda: None) if st["junk"] == 1 else open(os.devnull)
            self.sim.fault("model cannot be serialised")
        bad = cached or extra is not None
        older = open(path, "rb").read() if os.path.exists(path) else None
        size = 0
        zoo.WORLD[0] = None
        if not bad:
            size = len(pickle.dumps(real, proto))
        f = st.get("disk")
        disk.arm(f, int(size * f["at"]) if f else 0)
        mode = st["mode"]
        got = {}

        def save():
            try:
                with disk.mounted():
                    if mode == "path":
                        real.pickle(path, proto) if st.get("explicit", True) else real.pickle(path)
                    elif mode == "object":
                        with io.open(path, "wb") as fh:
                            real.pickle(fh, protocol=proto)
                    else:
                        got["bytes"] = io.BytesIO()
                        real.pickle(got["bytes"], proto)
            except (OSError, InjectedInterrupt) as e:
                if not disk.fired and not bad:
                    raise
                return e
            except Exception as e:
                if not bad:
                    raise
                return e
            return None
        fault, self.fault = self.fault, None        # callbacks have no part in saving
        status, res = self.act("save", save, lambda r: None, touched=[], quiet=True, text="%s %s protocol %d %s" % (o.hname(), mode, proto, f))
        self.fault = fault
        if extra is not None:
            v = extra.__dict__.pop("user_data")
            if hasattr(v, "close"):
                v.close()
        zoo.WORLD[0] = None
        now = signature(real)
        require(now == before, "save:model", lambda: "saving changed the model")
        loud = [k for k in disk.fired if k in ("enospc", "eio", "interrupt", "open", "close")]
        if bad:
            if mode == "path":
                require(res is not None, "save:silent", "a model that cannot be serialised was saved without an error")
                here = open(path, "rb").read() if os.path.exists(path) else None
                require(older is None or here == older, "save:older-lost", lambda: "the older file was harmed by a save that could not work: %r bytes before, %r after" % (older and len(older), here is not None and len(here)))
            self.sim.probe("save refused")
            return
        if res is not None:
            # failed: what is there must not load as another model
            if os.path.exists(path):
                self.check_file(path, [before], older, "after a failed save (%r)" % (res,))
            require(loud, "save:raised", lambda: "raised %r though the disk did nothing" % (res,))
            self.sim.probe("save failed")
            disk.arm(None)
            with disk.mounted():
                real.pickle(path, proto)            # it can be saved again
            blob = open(path, "rb").read()
        else:
            blob = got["bytes"].getvalue() if mode == "bytes" else open(path, "rb").read()
            if loud:
                # the save says it worked although the disk failed
                self.check_file(path, [before], None, "after a save that hid a failure (%s)" % loud, must=True)
                self.sim.probe("failure hidden")
        # a crash at any byte: only a prefix is there
        for frac in st["cuts"]:
            k = {"first": 1, "last": len(blob) - 1, "last2": len(blob) - 2, "zero": 0}.get(frac) if isinstance(frac, str) else int(frac * len(blob))
            if k is None or k >= len(blob) or k < 0:
                continue
            self.sim.fault("file cut off")
            self.sim.checks += 1
            cut = os.path.join(self.dir, "cut.pickle")
            with _real_open(cut, "wb") as fh:
                fh.write(blob[:k])
            for target in ("path", "object"):
                try:
                    if target == "path":
                        m = paramz.load(cut)
                    else:
                        with _real_open(cut, "rb") as fh:
                            m = paramz.load(fh)
                except Exception:
                    continue
                raise Violation("save:torn-loads", "the first %d of %d bytes load (%s) as %r" % (k, len(blob), target, type(m)))
        # load it back and keep it as a model of its own
        fl = st.get("load_fault")
        disk.arm(fl, int(len(blob) * fl["at"]) if fl else 0)
        if mode == "bytes":
            with _real_open(path, "wb") as fh:
                fh.write(blob)
        if st.get("multi"):
            two = os.path.join(self.dir, "two.pickle")
            with _real_open(two, "wb") as fh:
                real.pickle(fh, proto)
                real.pickle(fh, proto)
            with _real_open(two, "rb") as fh:
                for _ in range(2):
                    require(signature(paramz.load(fh)) == before, "save:two", "two models saved to one file object do not load back")

        def load():
            try:
                with disk.mounted():
                    if st.get("load_object"):
                        with io.open(path, "rb") as fh:
                            return paramz.load(fh)
                    return paramz.load(path)
            except OSError:
                if not disk.fired:
                    raise
                return None
        status, res = self.act("load", load, lambda r: None, touched=[], text=path[-10:])
        if status == "fault":
            return
        if res is None:
            require(disk.fired, "save:load", "loading returned nothing")
            self.sim.probe("load failed")
            return
        zoo.WORLD[0] = None
        require("read-eio" not in disk.fired or signature(res) == before, "save:load-error-hidden", "a read error was hidden and another model came out")
        self.keep.append(res)
        require(type(res) is type(real), "save:type", lambda: "a %s was loaded as a %s" % (type(real), type(res)))
        sig = signature(res)
        require(sig == before, "save:differs", lambda: "saved %r\nloaded %r" % ([a for a, b in zip(before, sig) if a != b][:3], [b for a, b in zip(before, sig) if a != b][:3]))
        if hasattr(real, "optimization_runs"):
            a, b = real.optimization_runs, res.optimization_runs
            require(len(a) == len(b) and all(np.array_equal(x.x_opt, y.x_opt) and x.f_opt == y.f_opt for x, y in zip(a, b)), "save:records", "the records of runs differ after loading")
        c = self.adopt(res, o)
        for n in c.nodes():
            n.dirty = not n.upd or n.size == 0
        self.sim.probe("loaded models")
        self.sim.state(o.shape_sig(), proto, mode)

    def check_file(self, path, allowed, older, when, must=False):
        import paramz
        here = _real_open(path, "rb").read()
        if older is not None and here == older:
            return
        try:
            m = paramz.load(path)
        except Exception:
            require(not must, "save:hidden", "%s the file does not load" % when)
            return
        require(signature(m) in allowed, "save:other-model", "%s the file loads as a different model" % when)


class SaveScenario(hier.HierScenario):
    def __init__(self, prop="C14"):
        hier.HierScenario.__init__(self, prop)
        self.dir = None

    def generate(self, rng, tier):
        plan = hier.HierScenario.generate(self, rng, tier)
        steps = []
        for s in plan["steps"]:
            if rng.random() < 0.7:
                s["look"] = False
            steps.append(s)
            if s["op"] != "link" and rng.random() < 0.2 or rng.random() < 0.03:
                steps.append(self.gen_save(rng))
        steps.append(self.gen_save(rng))
        return dict(plan, steps=steps)

    def gen_save(self, rng):
        R = lambda: rng.randrange(10 ** 6)
        s = dict(op="save", t=R(), seed=R(), slot=R(), leaf=rng.random() < 0.2, proto=rng.choice([0, 1, 2, 3, 4, 5, -1]), mode=rng.choice(["path", "path", "object", "bytes"]),
                 cuts=[rng.choice(["first", "last", "last2", "zero", round(rng.random(), 4), round(rng.random(), 4), round(rng.random(), 4)]) for _ in range(rng.choice([0, 1, 3]))])
        if rng.random() < 0.1:
            s["explicit"] = False
        if rng.random() < 0.4:
            s["disk"] = dict(kind=rng.choice(["enospc", "enospc", "eio", "short", "open", "close", "interrupt"]), at=rng.choice([0, 0.999, round(rng.random(), 4), round(rng.random(), 4)]))
        if rng.random() < 0.15:
            s["junk"] = rng.choice([1, 2])
        if rng.random() < 0.2:
            s["load_fault"] = dict(kind=rng.choice(["read-short", "read-eio"]), at=round(rng.random(), 4))
        if rng.random() < 0.3:
            s["load_object"] = True
        if rng.random() < 0.1:
            s["multi"] = True
        if rng.random() < 0.15:
            s["fault"] = dict(on="changed", n=rng.choice([0, 1, 2, 3]), exc=rng.choice(["fault", "value", "interrupt"]))
        return s

    def execute(self, plan, sim):
        self.dir = tempfile.mkdtemp(prefix="dst-save-")
        with contextlib.redirect_stdout(io.StringIO()):
            zoo.OWN[0] = bool(plan.get("own"))
            w = SaveWorld(sim, plan, hier.GROUPS[self.prop])
            w.dir = self.dir
            w.opname = "creation"
            w.verify()
            for s in plan["steps"]:
                w.step(s)
            w.verify()
        sim.ev("final", [str(r.shape_sig()) for r in w.roots()])
        if len(plan["steps"]) > 2:
            sim.nontrivial = True

    def cleanup(self):
        builtins.open, io.open = _real_open, _real_ioopen
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None
        hier.HierScenario.cleanup(self)
