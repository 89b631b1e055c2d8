"""The check of one property:  python -m dst.check C01 [--tier quick|thorough] [--runs N] [--seed S]

Exit 0: held on every simulated run.  Exit 1 + VIOLATION line: broken, with a verified replay file.
Exit 2: the machinery failed (never a verdict).
"""
import sys, os, json, time, subprocess, tempfile, shutil, signal, hashlib, collections

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DST_REPO", "/repo")
OUT = os.path.join(VERIF, "out")


def child_env(tmp):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=os.environ.get("DST_HASHSEED", "0"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"), MPLBACKEND="Agg",
               PYTHONPATH=REPO + os.pathsep + VERIF, PYTHONWARNINGS="ignore", DST_REPO=REPO, DST_TMP=tmp)
    env.pop("COVERAGE_PROCESS_START", None)
    return env


def run_workers(prop, seed, tier, runs, batch, nworkers, tmp, cap, cpu):
    batches = [list(range(i, min(i + batch, runs))) for i in range(0, runs, batch)]
    deadline = time.monotonic() + cap
    procs = []
    for w in range(nworkers):
        mine = batches[w::nworkers]
        if not mine:
            continue
        out = os.path.join(tmp, "w%d.json" % w)
        cfg = dict(prop=prop, seed=seed, tier=tier, batches=mine, out=out, deadline=deadline, cpu=cpu)
        log = open(os.path.join(tmp, "w%d.log" % w), "w")
        arg = json.dumps(cfg)
        p = subprocess.Popen([sys.executable, "-m", "dst.worker", arg], env=child_env(tmp), cwd=tmp,
                             stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        procs.append((w, p, out, log))
    docs, errors = [], []
    pending = list(procs)
    found = False
    hard = deadline + 90
    while pending:
        for item in list(pending):
            w, p, out, log = item
            if p.poll() is not None:
                pending.remove(item)
                log.close()
                if os.path.exists(out):
                    d = json.load(open(out))
                    docs.extend(d)
                    if any(x.get("violation") or "hang" in x or "crash" in x or x.get("error") for x in d):
                        found = True
                else:
                    errors.append("worker %d exited %s: %s" % (w, p.returncode, open(os.path.join(tmp, "w%d.log" % w)).read()[-3000:]))
        if found or time.monotonic() > hard:
            for w, p, out, log in pending:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                log.close()
            if not found:
                errors.append("workers did not stop at their deadline")
            pending = []
        if pending:
            time.sleep(0.02)
    return docs, errors


def replay_once(path, tmp, timeout=120, extra=()):
    """-> (label or None, digest, raw)"""
    try:
        p = subprocess.run([sys.executable, "-m", "dst.replay", path, "--json"] + list(extra), env=child_env(tmp), cwd=tmp,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "no-progress", "", "timeout"
    txt = p.stdout.decode("utf-8", "replace")
    if p.returncode < 0:
        return "crash:%d" % -p.returncode, "", txt
    for line in txt.splitlines():
        if line.startswith("RESULT "):
            r = json.loads(line[7:])
            return (r["v"]["label"] if r["v"] else None), r["digest"], txt
    return "HARNESS", "", txt


def confirm(prop, seed, tier, cand, tmp, minimise_s):
    """Turn a candidate into a verified replay file. -> (path, doc) or (None, reason)"""
    doc = dict(property=prop, seed=seed, tier=tier, run=cand["idx"], plan=cand["plan"], prelude=cand["prelude_plans"],
               violation=cand["v"], note="replay: bin/replay FILE  (exit 1 and the VIOLATION line when it happens again)")
    raw = os.path.join(tmp, "raw.json")
    json.dump(doc, open(raw, "w"))
    small = os.path.join(tmp, "small.json")
    try:
        subprocess.run([sys.executable, "-m", "dst.minimise", raw, small, str(minimise_s)], env=child_env(tmp), cwd=tmp,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=minimise_s + 90)
    except subprocess.TimeoutExpired:
        pass
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    seen = []
    for exact in (True, False):
        for src in (small, raw):
            if not os.path.exists(src):
                continue
            a = replay_once(src, tmp)
            b = replay_once(src, tmp)
            seen.append((src, a, b))
            if a[0] and a[0] != "HARNESS" and a[0] == b[0] and (a[1] == b[1] or not exact):
                d = json.load(open(src))
                d["violation"]["label"] = a[0]
                d["digest"] = a[1]
                if a[1] != b[1]:        # e.g. the code under test shows memory it never wrote
                    d["digest"] = None
                    d["note"] += "; the violation repeats, but the code under test shows values which differ between executions"
                h = hashlib.sha256(json.dumps(d["plan"], sort_keys=True).encode()).hexdigest()[:10]
                path = os.path.join(OUT, "replays", "%s-%s.json" % (prop, h))
                json.dump(d, open(path, "w"), indent=1)
                return path, d
            last = (a, b)
    return None, "not reproduced in a fresh process: %r" % ([x[:2] for x in last],) + last[0][2][-1500:]


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("DST_WORKERS", "0")) or (os.cpu_count() or 2))
    ap.add_argument("--cap", type=float)
    ap.add_argument("--minimise", type=float, default=45.0)
    ap.add_argument("--digests")
    ap.add_argument("--batch", type=int)
    a = ap.parse_args(argv)
    sys.path.insert(0, VERIF)
    from dst import registry, known
    ent = registry.SCENARIOS[a.prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    runs = a.runs or ent[tier]
    cap = a.cap or (150.0 if tier == "quick" else 780.0)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="dst-%s-" % a.prop)
    try:
        docs, errors = run_workers(a.prop, a.seed, tier, runs, min(a.batch or 10 ** 6, ent["batch"]), max(1, a.workers), tmp, cap, ent.get("cpu", 25.0))
        agg = dict(runs=0, simsec=0.0, events=0, checks=0)
        faults, probes, ops = collections.Counter(), collections.Counter(), collections.Counter()
        states, scheds, nontriv, samples, digests = set(), set(), set(), [], []
        cands, truncated = [], False
        for d in docs:
            if "hang" in d or "crash" in d:
                idx = d.get("hang", d.get("idx"))
                cands.append((idx, d["batch"][:d["batch"].index(idx)] if idx in d["batch"] else [],
                              dict(label="no-progress" if "hang" in d else "crash", msg="process ended with %s" % d.get("crash")), None))
                continue
            if d.get("timeout"):
                truncated = True
                continue
            for k in agg:
                agg[k] += d[k]
            faults.update(d["faults"]); probes.update(d["probes"]); ops.update(d["ops"])
            states.update(d["states"]); scheds.update(d["scheds"]); nontriv.update(d["nontrivial"])
            samples.extend(d["samples"]); digests.extend(d["digests"])
            if d.get("error"):
                errors.append("run %s: %s" % (d["error"]["idx"], d["error"]["tb"]))
            if d.get("violation"):
                v = d["violation"]
                cands.append((v["idx"], v["prelude"], v["v"], v["plan"]))
        if a.digests:
            json.dump(sorted(digests), open(a.digests, "w"))
        status, line, vdoc = 0, None, None
        reasons = []
        kf = known.load(a.prop)
        for idx, prelude, v, plan in sorted(cands, key=lambda c: c[0])[:4]:
            sys.path.insert(0, REPO)
            plans = gen_plans(a.prop, a.seed, tier, [idx] + list(prelude), tmp)
            cand = dict(idx=idx, plan=plans[0], prelude_plans=plans[1:], v=v)
            path, d = confirm(a.prop, a.seed, tier, cand, tmp, a.minimise)
            if path is None:
                reasons.append("run %d (%s): %s" % (idx, v["label"], d))
                continue
            status, vdoc = 1, d
            line = "VIOLATION property=%s replay=%s" % (a.prop, path)
            break
        wall = time.time() - t0
        if status == 0 and (errors or reasons):
            status = 2
        for k in kf:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
        write_evidence(a.prop, tier, a.seed, agg, faults, probes, ops, states, scheds, nontriv, samples, wall, status, truncated, runs, vdoc, a.workers)
        if status == 1:
            print("violated: %s" % vdoc["violation"]["label"])
            print("run %d of seed %d, minimised to %d steps" % (vdoc["run"], a.seed, len(vdoc["plan"].get("steps", []) or [])))
            print(str(vdoc["violation"].get("msg"))[:3000])
            print(json.dumps(vdoc["plan"])[:3000])
            print(line)
        elif status == 2:
            for e in errors + reasons:
                print("HARNESS-ERROR " + str(e)[:6000])
        else:
            print("OK property=%s runs=%d events=%d states=%d faults=%s wall=%.1fs%s" % (
                a.prop, agg["runs"], agg["events"], len(states), dict(faults.most_common(12)), wall, " (stopped at the time cap)" if truncated else ""))
        return status
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def gen_plans(prop, seed, tier, idxs, tmp):
    code = ("import sys,json\nfrom dst import core,registry,seams\nseams.setup()\ns=registry.load(%r)\n"
            "print('PLANS '+json.dumps([core.make_plan(s,%r,%r,i,%r) for i in %r]))" % (prop, prop, seed, tier, list(idxs)))
    p = subprocess.run([sys.executable, "-c", code], env=child_env(tmp), cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    for l in p.stdout.decode().splitlines():
        if l.startswith("PLANS "):
            return json.loads(l[6:])
    raise SystemExit("HARNESS-ERROR cannot regenerate plans: " + p.stderr.decode()[-2000:])


def write_evidence(prop, tier, seed, agg, faults, probes, ops, states, scheds, nontriv, samples, wall, status, truncated, asked, vdoc, workers):
    from dst import registry, evidence_text
    t = evidence_text.TEXT.get(prop, {})
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 3), violations=1 if status == 1 else 0,
              assumptions=t.get("assumptions", []) + evidence_text.COMMON,
              coverage=dict(
                  evaluations=agg["runs"], distinct_nontrivial=len(nontriv),
                  rule=t.get("rule", "one evaluation = one simulated run of a seeded plan; distinct by event-log digest; non-trivial = at least one injected fault fired in it"),
                  samples=samples[:3] or [dict(note="no run finished")],
                  runs_asked=asked, stopped_at_time_cap=truncated,
                  runs_per_hour=int(agg["runs"] / max(wall, 1e-6) * 3600), seeds_per_hour=int(agg["runs"] / max(wall, 1e-6) * 3600),
                  workers=workers, simulated_seconds=round(agg["simsec"], 3), events=agg["events"], oracle_checks=agg["checks"],
                  faults_fired=dict(sorted(faults.items())), operations=dict(sorted(ops.items())), probes=dict(sorted(probes.items())),
                  distinct_states=len(states), distinct_interleavings=len(scheds),
                  state_measure=t.get("state_measure", "hash of the reference model's abstract state after each step"),
                  interleaving_measure=t.get("interleaving_measure", "hash of the sequence of scheduling and fault decisions that took effect in a run"),
                  real_components=t.get("real", ["all of paramz", "numpy", "scipy.optimize"]),
                  stubs=t.get("stubs", [])))
    if vdoc:
        ev["coverage"]["violation"] = dict(label=vdoc["violation"]["label"], run=vdoc["run"], steps=len(vdoc["plan"].get("steps", []) or []))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
