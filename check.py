#!/usr/bin/env python3
"""Decide one property: build the simulator against /repo's working tree, run seeds, shrink and report.

usage: check.py PROPERTY [quick|thorough]     (VERIF_SEED, VERIF_TIER from the environment)
       check.py --build                       (setup: build both variants)
       check.py --replay FILE                 (reproduce a reported violation)
"""
import collections, fcntl, hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
REPO = "/repo"
# property -> [(workload, quick runs, thorough runs)]
WORK = {
    "C01": [("C01", 200000, 1800000)],
    "C02": [("C02", 90000, 800000), ("C02K", 400, 400)],
    "C03": [("C03", 300000, 2700000)],
    "C04": [("C04", 200000, 1800000), ("C04K", 80, 80)],
    "C05": [("C05", 80000, 720000)],
    "C06": [("C06", 20000, 180000)],
    "C07": [("C07", 36000, 320000)],
    "C08": [("C08", 10000, 90000)],
    "C09": [("C09", 16000, 150000)],
    "C10": [("C10", 9000, 90000)],
    "C11": [("C11", 28000, 250000)],
    "C12": [("C12", 18000, 160000)],
}
# Longest a batch may take, seconds (the run counts above normally end it long before).
CAP = {"quick": 150, "thorough": 660}
VARIANTS = {"dbg": "debug", "rel": "release"}
COMPONENTS = {
    "real code": "the whole fleece crate from /repo's working tree with its dependencies (rangemap, crossbeam sharded lock, lazy_static, folklore, fixedstr, serde) and std's locks, Once and Arc",
    "stubs": "heap allocator (simulated arena), futex system call and thread scheduling (simulator), disk and network where a workload has them (in-memory models), client code (workload)",
}

def log(*a): print(*a, file=sys.stderr, flush=True)

def repo_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                h.update(os.path.join(d, f).encode() + b"\0" + open(os.path.join(d, f), "rb").read() + b"\0")
    return h.hexdigest()

def build():
    env = dict(os.environ, RUSTC_WRAPPER=os.path.join(SIM, "wrap.sh"), CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=os.path.join(SIM, "target"))
    env.pop("RUSTFLAGS", None)
    os.makedirs(os.path.join(SIM, "target"), exist_ok=True)
    with open(os.path.join(SIM, "target", ".lock-build"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        # cargo goes by modification times; make sure of it by content
        stamp, now = os.path.join(SIM, "target", ".repo-hash"), repo_hash()
        if not os.path.exists(stamp) or open(stamp).read() != now:
            for prof in ([], ["--release"]):
                subprocess.run(["cargo", "clean", "--offline", "-q", "-p", "fleece", *prof], cwd=SIM, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        ps = [subprocess.Popen(["cargo", "build", "--offline", "--locked", "-q", *prof], cwd=SIM, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for prof in ([], ["--release"])]
        outs = [p.communicate()[0] for p in ps]
        if all(p.returncode == 0 for p in ps): open(stamp, "w").write(now)
    bad = [o for p, o in zip(ps, outs) if p.returncode]
    if bad:
        log(bad[0][-6000:])
        log("the simulator does not build against /repo")
        return False
    return True

def binary(variant): return os.path.join(SIM, "target", VARIANTS[variant], "fleecesim")

def run_batch(work, count, cap, seed, outdir):
    cpus = sorted(os.sched_getaffinity(0))[:8]
    n = max(2, len(cpus))
    if n % 2: n += 1
    procs = []
    for k in range(n):
        variant = "dbg" if k < n // 2 else "rel"
        out = os.path.join(outdir, f"{work}.{k}.json")
        cmd = [binary(variant), "batch", work, f"--seed={seed}", f"--start={k}", f"--stride={n}", f"--count={(count + n - 1) // n}",
               f"--ms={int(cap * 1000)}", f"--cpu={cpus[k % len(cpus)]}", f"--out={out}"]
        procs.append((variant, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)))
    res, errs = [], []
    for variant, out, p in procs:
        try:
            _, err = p.communicate(timeout=cap + 120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            errs.append(f"{work}: worker timed out")
            continue
        if p.returncode or not os.path.exists(out):
            errs.append(f"{work}: worker failed ({p.returncode}): {err[-800:]}")
            continue
        o = json.load(open(out))
        os.remove(out)
        o["variant"] = variant
        res.append(o)
    return res, errs

def known(prop):
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop]

def report(prop, work, v, variant, outdir):
    """Shrink one violation, check that the replay file reproduces it, print the line."""
    name = re.sub(r"[^A-Za-z0-9]+", "-", f"{prop}-{v['class']}").strip("-")[:80]
    f = os.path.join(outdir, f"{name}-{v['seed']}.json")
    r = subprocess.run([binary(variant), "shrink", work, f"--seed={v['seed']}", f"--prop={prop}", f"--variant={variant}", f"--out={f}", "--ms=25000"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(f):
        log(f"violation {v['class']} with seed {v['seed']} ({variant}) did not reproduce: {r.stdout[-500:]}")
        return False
    q = subprocess.run([binary(variant), "replay", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if q.returncode != 1 or " exactly" not in q.stdout:
        log(f"{f} does not reproduce exactly: {q.stdout[-500:]}")
        return False
    d = json.load(open(f))
    log(f"  {d['class']}: {d['message'][:600]}")
    log(f"  found with seed {v['seed']} ({variant}), shrunk to {d['minimised_to']}; replay: python3 check.py --replay {f}")
    print(f"VIOLATION property={prop} replay={f}", flush=True)
    return True

def main():
    if sys.argv[1:2] == ["--build"]: return 0 if build() else 2
    if sys.argv[1:2] == ["--replay"]:
        d = json.load(open(sys.argv[2]))
        if not build(): return 2
        return subprocess.run([binary(d["variant"]), "replay", sys.argv[2]]).returncode
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    outdir = os.path.join(HERE, "out")
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(evdir, exist_ok=True)
    log(f"{prop} {tier} VERIF_SEED={seed}")
    if not build(): return 2
    tb = time.time()
    results, errs, per = [], [], {}
    total = sum(w[1 if tier == "quick" else 2] for w in WORK[prop])
    for w in WORK[prop]:
        count = w[1 if tier == "quick" else 2]
        r, e = run_batch(w[0], count, max(20, CAP[tier] * count / total), seed, outdir)
        results += [(w[0], x) for x in r]
        errs += e
    secs = time.time() - tb
    # violations
    by = collections.OrderedDict()
    for w, o in results:
        for v in o["violations"]:
            by.setdefault(v["class"], []).append((w, v, o["variant"]))
        for h in o["harness"]: errs.append(f"{w} {h['class']} seed {h['seed']}: {h['msg']}")
    listed = {f["class"]: f for f in known(prop)}
    hit, nviol, unrepro = [], 0, 0
    fresh = [c for c in by if c not in listed]
    for c in by:
        if c in listed: hit.append(listed[c])
    for f in hit: print(f"KNOWN-FINDING: property={prop} {f['what']}", flush=True)
    for c in fresh:
        log(f"  violation class {c}: {len(by[c])} runs")
    for c in fresh[:3]:
        ok = False
        for w, v, variant in by[c][:3]:
            ok = report(prop, w, v, variant, outdir)
            if ok: break
        if ok: nviol += 1
        else: unrepro += 1
    # evidence
    S = lambda k: sum(o[k] for _, o in results)
    runs = S("runs")
    evs, sch = set(), set()
    cov = {"dbg": collections.Counter(), "rel": collections.Counter()}
    cnt = collections.Counter()
    for w, o in results:
        evs |= {(w, x) for x in o["evs"]}
        sch |= {(w, x) for x in o["scheds"]}
        cnt.update(o["counters"])
        for x in o["cov"]:
            i, b = x.split(":")
            cov[o["variant"]][i] |= int(b, 16)
    faults = {k[7:]: v for k, v in cnt.items() if k.startswith("fault: ")}
    samples = []
    for w, o in results:
        if o["samples"] and o["variant"] == "dbg" and len(samples) < 2:
            s = o["samples"][-1]
            r = subprocess.run([binary("dbg"), "one", w, f"--seed={s['seed']}"], stdout=subprocess.PIPE, text=True, errors="replace")
            samples.append(dict(s, workload=w, trace=[x[:160] for x in r.stdout.splitlines()[:30]]))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(evs),
            "rule": "one evaluation is one simulated run of the workload: set-up, per-thread operations, schedule, faults, heap placement and heap contents all drawn from the run's seed mix(VERIF_SEED, index). Distinct and non-trivial: runs whose hash over all observed operation outcomes (kinds of operation, results, sizes) differs from every other run's",
            "samples": samples,
            "runs_by_variant": {v: sum(o["runs"] for _, o in results if o["variant"] == v) for v in VARIANTS},
            "planned_runs_completed": all(o["complete"] for _, o in results) and bool(results),
            "simulated_runs_per_hour": int(runs / max(secs, 0.001) * 3600),
            "seeds_per_hour": int(runs / max(secs, 0.001) * 3600),
            "simulated_time_steps": S("edges"),
            "simulated_time_unit": "control-flow edges executed by the code under test; the library has no clock, so steps are its time",
            "scheduling_points_offered": S("points"), "context_switches": S("switches"),
            "distinct_schedules": len(sch), "distinct_schedules_measure": "hash of the sequence of (step, thread) switches of a run",
            "observed_events": S("events"),
            "edges_covered": {v: sum(bin(x).count("1") for x in c.values()) for v, c in cov.items()},
            "faults_injected": faults,
            "other_counters": {k: v for k, v in cnt.items() if not k.startswith("fault: ")},
            "same_seed_reexecuted_identically": S("rechecks"),
            "components": COMPONENTS,
            "known_findings_seen": [f["what"] for f in hit],
            "seconds_simulating": round(secs, 1),
        },
        "assumptions": [
            "sequentially consistent execution: one simulated thread runs at a time, so weak-memory effects of x86 or ARM are not explored",
            "the toolchain, the simulator runtime, the reference codec and the content model are trusted",
            "sampled search: seeds not run are not covered",
        ],
        "wall_s": round(time.time() - t0, 1), "violations": nviol,
    }
    json.dump(ev, open(os.path.join(evdir, f"{prop}.json"), "w"), indent=1)
    log(f"{prop}: {runs} runs, {len(evs)} distinct, {len(sch)} schedules, {nviol} violations, {time.time() - t0:.0f} s")
    for e in errs[:5]: log("HARNESS:", e)
    if nviol: return 1
    if errs or unrepro or not runs: return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
