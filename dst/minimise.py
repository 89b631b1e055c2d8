"""Shrinks a failing plan while the same violation label persists.

usage: python -m dst.minimise IN.json OUT.json SECONDS
Every candidate runs in a forked child (crash and state isolation).
"""
import sys, os, json, time, signal, gc, copy

from . import core, registry, seams, replay


def attempt(doc, cpu=20):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            signal.signal(signal.SIGPROF, lambda *a: os._exit(97))
            signal.setitimer(signal.ITIMER_PROF, cpu)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1); os.dup2(dn, 2)
            sim, v = replay.run_doc(doc, budget=False)
            with os.fdopen(w, "w") as f:
                json.dump(v, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        buf = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return "crash:%d" % os.WTERMSIG(st)
    if os.WEXITSTATUS(st) == 97:
        return "no-progress"
    try:
        v = json.loads(buf)
    except ValueError:
        return None
    return v["label"] if v else None


def shrink_list(doc, path, label, deadline):
    """ddmin over the list found at plan[path...]"""
    def get(d):
        x = d["plan"]
        for p in path:
            x = x[p]
        return x
    def put(d, val):
        x = d["plan"]
        for p in path[:-1]:
            x = x[p]
        x[path[-1]] = val
    items = get(doc)
    if not isinstance(items, list):
        return doc
    n = 2
    while len(items) >= 1 and time.monotonic() < deadline:
        chunk = max(1, len(items) // n)
        i, changed = 0, False
        while i < len(items) and time.monotonic() < deadline:
            cand = items[:i] + items[i + chunk:]
            d = copy.deepcopy(doc)
            put(d, cand)
            if attempt(d) == label:
                items, doc, changed = cand, d, True
            else:
                i += chunk
        if chunk == 1 and not changed:
            break
        n = min(len(items) or 1, n * 2) if not changed else max(2, n - 1)
        if chunk == 1 and changed:
            continue
    return doc


def simplify_values(doc, label, deadline):
    """Drop optional keys of steps and simplify numbers, one at a time."""
    steps = doc["plan"].get("steps")
    if not isinstance(steps, list):
        return doc
    for i in range(len(steps)):
        for k in sorted(doc["plan"]["steps"][i].keys() if isinstance(doc["plan"]["steps"][i], dict) else []):
            if time.monotonic() > deadline:
                return doc
            val = doc["plan"]["steps"][i][k]
            cands = []
            if k == "op":
                continue
            if isinstance(val, list):
                cands = [[]] if val else []
            elif isinstance(val, dict):
                cands = [None]
            elif isinstance(val, bool):
                cands = [False] if val else []
            elif isinstance(val, int):
                cands = [0, 1] if val not in (0, 1) else ([0] if val == 1 else [])
            for c in cands:
                d = copy.deepcopy(doc)
                if c is None:
                    d["plan"]["steps"][i].pop(k)
                else:
                    d["plan"]["steps"][i][k] = c
                if attempt(d) == label:
                    doc = d
                    break
    return doc


def main():
    src, dst, secs = sys.argv[1], sys.argv[2], float(sys.argv[3])
    doc = json.load(open(src))
    seams.setup(doc["property"])
    deadline = time.monotonic() + secs
    label = doc["violation"]["label"]
    base = attempt({**doc, "prelude": []})
    if base == label:
        doc["prelude"] = []
    else:
        base = attempt(doc)
    if base is None:
        doc["reproduced_in_process"] = False
        json.dump(doc, open(dst, "w")); return
    label = base
    doc["violation"]["label"] = label
    if doc.get("prelude"):
        while doc["prelude"] and time.monotonic() < deadline:
            for j in range(len(doc["prelude"])):
                d = copy.deepcopy(doc)
                del d["prelude"][j]
                if attempt(d) == label:
                    doc = d
                    break
            else:
                break
    scn = registry.load(doc["property"])
    for path in getattr(scn, "shrink_lists", [["steps"]]):
        try:
            doc = shrink_list(doc, path, label, deadline)
        except (KeyError, IndexError, TypeError):
            pass
    doc = simplify_values(doc, label, deadline)
    for path in getattr(scn, "shrink_lists", [["steps"]]):
        try:
            doc = shrink_list(doc, path, label, deadline)
        except (KeyError, IndexError, TypeError):
            pass
    json.dump(doc, open(dst, "w"))


if __name__ == "__main__":
    main()
