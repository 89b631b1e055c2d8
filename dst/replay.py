"""Replay a recorded run: python -m dst.replay FILE [-v]

Exit 1 with the VIOLATION line when the recorded violation happens again, 0 when the run is clean.
The run is executed under a budget of executed source lines of paramz, so that a hang is a repeatable verdict.
"""
import sys, os, json, gc, signal

from . import core, registry, seams

LINE_BUDGET = 6000000


class StepBudget(BaseException):
    pass


def install_budget(budget=LINE_BUDGET):
    n = [0]
    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] > budget:
                raise StepBudget()
        return local
    def tr(frame, event, arg):
        if "/paramz/" in frame.f_code.co_filename:
            n[0] += 1
            if n[0] > budget:
                raise StepBudget()
            return local
        return None
    sys.settrace(tr)
    return n


def run_doc(doc, keep=False, budget=True):
    """-> (sim, violation dict or None)"""
    scn = registry.load(doc["property"])
    if hasattr(scn, "prepare"):
        scn.prepare()
    gc.collect(); gc.freeze(); gc.disable()
    for p in doc.get("prelude", []):
        core.run_plan(scn, p)
    use = budget and not getattr(scn, "own_trace", False)
    if use:
        install_budget()
    try:
        sim, v = core.run_plan(scn, doc["plan"], keep=keep)
    except StepBudget:
        sim, v = core.Sim(), dict(label="no-progress", msg="the run did not finish within %d source lines of paramz" % LINE_BUDGET)
    finally:
        if use:
            sys.settrace(None)
    if v and v["label"] .startswith("exc:StepBudget"):
        v = dict(label="no-progress", msg="the run did not finish within %d source lines of paramz" % LINE_BUDGET)
    return sim, v


def main():
    path = sys.argv[1]
    keep = "-v" in sys.argv
    js = "--json" in sys.argv
    doc = json.load(open(path))
    seams.setup(doc["property"])
    sim, v = run_doc(doc, keep=keep)
    if keep:
        for l in sim.events:
            print("  " + l)
    if js:
        print("RESULT " + json.dumps(dict(v=v, digest=sim.digest(), events=sim.n_events)))
        sys.stdout.flush()
        os._exit(0)
    if v is None:
        print("CLEAN property=%s digest=%s" % (doc["property"], sim.digest()[:16]))
        os._exit(0)
    print("label: %s\n%s" % (v["label"], v["msg"]))
    print("event digest: %s" % sim.digest()[:16])
    print("VIOLATION property=%s replay=%s" % (doc["property"], path))
    sys.stdout.flush()
    os._exit(1)


if __name__ == "__main__":
    main()
