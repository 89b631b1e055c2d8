"""A deterministic scheduler for real threads: one baton, handed over only at lines (or bytecodes) of paramz the plan names.

A schedule is a list of [steps, which]: run the current thread for that many scheduling points, then switch to the
which-th other runnable thread.  After the list every thread runs to its end in turn.
"""
import os, sys, zlib, _thread
from .core import Violation, REPO
from . import seams


class Abort(BaseException):
    pass


class SimThread(object):
    def __init__(self, idx, fn):
        self.idx, self.fn = idx, fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.done, self.waiting = False, None
        self.exc = None
        self.ident = None


class Sched(object):
    LIMIT = 3000000

    def __init__(self, sim, schedule, opcodes=False, hot=None):
        self.sim, self.schedule, self.opcodes = sim, [list(x) for x in schedule], opcodes
        # hot: ["file", its name, 0, schedule] or ["function", modulus, remainder, schedule]: a schedule of its own for a file, or for the
        # functions whose names fall into one class
        self.hot, self.codes = hot, {}
        self.hotleft = [list(x) for x in hot[3]] if hot else []
        self.threads, self.byident = [], {}
        self.cur = None
        self.points = self.switches = 0
        self.left = self.schedule[0][0] if self.schedule else None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.deadlock = False
        self.prefix = os.path.realpath(REPO) + os.sep + "paramz" + os.sep
        self.where = None
        self.inside = 0

    # ---- used by the locks
    def me(self):
        return self.byident.get(_thread.get_ident())

    def block(self, t, lock):
        self.sim.ev("    thread", t.idx, "waits for a lock")
        self.sim.probe("waited for a lock")
        t.waiting = lock
        n = self.pick(t, 0)
        if n is None:
            self.deadlock = True
            t.waiting = None
            raise Abort()
        self.hand(t, n)
        t.waiting = None
        if self.deadlock:
            raise Abort()

    def unblock(self, lock):
        for t in self.threads:
            if t.waiting is lock:
                t.waiting = None

    # ---- scheduling
    def pick(self, t, which):
        alive = [u for u in self.threads if u is not t and not u.done and u.waiting is None]
        return alive[which % len(alive)] if alive else None

    def hand(self, t, n):
        self.cur = n
        self.switches += 1
        self.sim.choice(t.idx, n.idx, self.where)
        n.sem.release()
        t.sem.acquire()

    def is_hot(self, code):
        h = self.codes.get(code)
        if h is None:
            by, which, rest = self.hot[:3]
            name = os.path.basename(code.co_filename)
            h = self.codes[code] = name == which if by == "file" else zlib.crc32((name + ":" + code.co_name).encode()) % which == rest
        return h

    def point(self, frame):
        if self.hotleft and self.is_hot(frame.f_code):
            h = self.hotleft[0]
            if h[0] > 0:
                h[0] -= 1
            else:
                self.hotleft.pop(0)
                return self.switch(frame, h[1])
        if self.left is None:
            return
        if self.left > 0:
            self.left -= 1
            return
        which = self.schedule.pop(0)[1]
        self.left = self.schedule[0][0] if self.schedule else None
        self.switch(frame, which)

    def switch(self, frame, which):
        t = self.cur
        n = self.pick(t, which)
        if n is None:
            return
        self.where = (frame.f_code.co_name, frame.f_lineno)
        self.sim.ev("    switch", t.idx, "->", n.idx, "at", frame.f_code.co_name)
        self.sim.fault("preemption inside the library")
        self.hand(t, n)
        if self.deadlock:
            raise Abort()

    def tracer(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(self.prefix):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.local
        return None

    def local(self, frame, event, arg):
        if event in ("line", "opcode"):
            self.points += 1
            self.point(frame)
        return self.local

    def body(self, t):
        t.sem.acquire()
        t.ident = _thread.get_ident()
        self.byident[t.ident] = t
        if not self.deadlock:
            sys.settrace(self.tracer)
            try:
                t.fn()
            except Abort:
                pass
            except BaseException as e:
                t.exc = e
            finally:
                sys.settrace(None)
        t.done = True
        n = self.pick(t, 0)
        if n is None and not all(u.done for u in self.threads):
            self.deadlock = True        # everybody left waits for a lock
            n = next(u for u in self.threads if not u.done)
        if n is not None:
            self.cur = n
            n.sem.release()
        else:
            self.main.release()

    def run(self, fns):
        self.threads = [SimThread(i, f) for i, f in enumerate(fns)]
        for t in self.threads:
            _thread.start_new_thread(self.body, (t,))
        seams.SCHED[0] = self
        try:
            self.cur = self.threads[0]
            self.cur.sem.release()
            self.main.acquire()
        finally:
            seams.SCHED[0] = None
        if self.deadlock:
            raise Violation("threads:deadlock", "every thread left waits for a lock that another one holds")
        for t in self.threads:
            if t.exc is not None:
                raise t.exc


class Stdout(object):
    """One terminal per simulated thread."""
    def __init__(self, sched_of):
        self.sched_of, self.buf = sched_of, {}

    def write(self, s):
        sc = self.sched_of()
        t = sc.me() if sc is not None else None
        self.buf.setdefault(None if t is None else t.idx, []).append(s)
        return len(s)

    def flush(self):
        pass
