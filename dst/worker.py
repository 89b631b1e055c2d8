"""Executes batches of runs, each batch in a forked child (isolation from the state other runs left behind).

usage: python -m dst.worker JSON     with {prop, seed, tier, batches:[[i0,i1,..],..], out, deadline, cpu}
"""
import sys, os, json, time, signal, gc, traceback, collections

from . import core, registry, seams


def child(scn, cfg, batch, wfd):
    """Run one batch; write one JSON document to wfd."""
    gc.collect()
    gc.freeze()
    gc.disable()
    res = dict(runs=0, faults=collections.Counter(), probes=collections.Counter(), ops=collections.Counter(),
               states=set(), scheds=set(), nontrivial=set(), simsec=0.0, events=0, checks=0, violation=None, error=None, digests=[],
               samples=[])
    cur = [None, 0]

    def on_cpu(signum, frame):
        os.write(wfd, json.dumps(dict(hang=cur[0], batch=batch)).encode())
        os._exit(97)
    signal.signal(signal.SIGPROF, on_cpu)
    for pos, i in enumerate(batch):
        cur[0] = i
        os.pwrite(cfg["_progress"], ("%-12d" % i).encode(), 0)
        signal.setitimer(signal.ITIMER_PROF, cfg["cpu"])
        try:
            plan = core.make_plan(scn, cfg["prop"], cfg["seed"], i, cfg["tier"])
            sim, v = core.run_plan(scn, plan)
        except core.HarnessBug:
            res["error"] = dict(idx=i, tb=traceback.format_exc())
            break
        except Exception:
            res["error"] = dict(idx=i, tb=traceback.format_exc())
            break
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        res["runs"] += 1
        for k in ("faults", "probes", "ops"):
            res[k].update(getattr(sim, k))
        res["states"] |= sim.states
        d = sim.digest()
        if sim.nontrivial:
            res["nontrivial"].add(d[:16])
        res["scheds"].add(sim.sched.hexdigest()[:16])
        res["simsec"] += sim.sim_seconds
        res["events"] += sim.n_events
        res["checks"] += sim.checks
        res["digests"].append((i, d[:16]))
        if sim.nontrivial and i % 997 == 3 or (i == 3):
            res["samples"].append(dict(run=i, plan=json.dumps(plan)[:1500], faults=dict(sim.faults), digest=d[:16]))
        if v is not None:
            res["violation"] = dict(idx=i, prelude=batch[:pos], plan=plan, v=v, digest=d)
            break
        if time.monotonic() > cfg["deadline"]:
            break
    for k in ("states", "scheds", "nontrivial"):
        res[k] = sorted(res[k])
    with os.fdopen(wfd, "w") as f:
        json.dump(res, f)
    os._exit(0)


def main():
    cfg = json.loads(sys.argv[1])
    cfg["_progress"] = os.open(cfg["out"] + ".progress", os.O_RDWR | os.O_CREAT, 0o600)
    seams.setup(cfg["prop"])
    scn = registry.load(cfg["prop"])
    if hasattr(scn, "prepare"):
        scn.prepare()
    out = []
    for batch in cfg["batches"]:
        if time.monotonic() > cfg["deadline"]:
            out.append(dict(timeout=True))
            break
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                child(scn, cfg, batch, w)
            except BaseException:
                traceback.print_exc()
                os._exit(98)
        os.close(w)
        buf = b""
        with os.fdopen(r, "rb") as f:
            buf = f.read()
        _, st = os.waitpid(pid, 0)
        idx = int(os.pread(cfg["_progress"], 12, 0) or b"-1")
        doc = None
        try:
            doc = json.loads(buf) if buf else None
        except ValueError:
            doc = None
        if doc is None:
            code = -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
            doc = dict(crash=code, idx=idx, batch=batch)
        out.append(doc)
        if doc.get("violation") or doc.get("error") or "crash" in doc or "hang" in doc:
            break
    with open(cfg["out"] + ".tmp", "w") as f:
        json.dump(out, f)
    os.rename(cfg["out"] + ".tmp", cfg["out"])


if __name__ == "__main__":
    main()
