"""Orchestrator.  python -B -m vf.run PROP [--tier quick|thorough] [--replay FILE]"""
import argparse
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time

from . import core


def known_findings(pid):
    path = os.path.join(core.ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:") and ("property=%s " % pid) in line:
                out.append(line[len("known:"):].strip())
    return out


def replay(pid, path):
    core.setup_path()
    import warnings
    warnings.simplefilter("ignore")
    import signal
    from . import worker
    signal.signal(signal.SIGPROF, worker._on_prof)
    from .registry import load
    rec = json.load(open(path))
    prop = load(pid)
    leg = [l for l in prop.legs if l.name == rec["leg"]][0]
    case = core.parse_case(rec["case"])
    for attempt in range(5):
        stats = core.new_stats()
        msg = worker.timed(leg, case, stats)
        if msg:
            print(msg)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
    print("replay passed%s" % (" (inconclusive: %s)" % stats["gap_msgs"] if stats["gaps"] else ""))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--workers", type=int, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.prop, a.replay)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    n = a.workers or int(os.environ.get("VF_WORKERS", "8"))
    tmp = tempfile.mkdtemp(prefix="vf-")
    procs = []
    wall = "420" if tier == "quick" else "14400"
    try:
        for i in range(n):
            env = dict(os.environ)
            env.update(PYTHONHASHSEED=str((seed * 131 + i * 7 + 1) % 4294967295), OMP_NUM_THREADS="1",
                       OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
                       VF_WALL=os.environ.get("VF_WALL", wall), HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(tmp, "hyp"))
            env.pop("PYTHONPATH", None)
            out = os.path.join(tmp, "w%d.pkl" % i)
            log = open(os.path.join(tmp, "w%d.log" % i), "w")
            p = subprocess.Popen([sys.executable, "-B", "-m", "vf.worker", a.prop, tier, str(seed), str(i), str(n), out],
                                 cwd=core.ROOT, env=env, stdout=log, stderr=subprocess.STDOUT)
            procs.append((p, out, log.name))
        limit = t0 + float(wall) + 240
        results, broken = [], []
        for p, out, log in procs:
            try:
                p.wait(timeout=max(1, limit - time.monotonic()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            if os.path.exists(out):
                r = pickle.load(open(out, "rb"))
                results.append(r)
            else:
                broken.append("worker died (rc=%s): %s" % (p.returncode, open(log).read()[-1500:]))
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)

    from .registry import META
    meta = META[a.prop]
    errors = [r for r in results if not r["ok"]]
    good = [r for r in results if r["ok"]]
    failures = [f for r in good for f in r["failures"]]
    # the code under test cannot even be loaded/used: every case of the property fails
    load_broken = [e for e in errors if e.get("where") == "repo"]
    agg = {"evaluations": 0, "classes": {}, "counters": {}, "gaps": 0, "gap_msgs": {}, "discards": 0}
    nontriv, samples = set(), []
    for r in good:
        s = r["stats"]
        for k in ("evaluations", "gaps", "discards"):
            agg[k] += s[k]
        for k in ("classes", "counters", "gap_msgs"):
            for kk, v in s[k].items():
                agg[k][kk] = agg[k].get(kk, 0) + v
        nontriv |= s["nontrivial"]
        if s["samples"]:
            samples.extend(s["samples"][::-1])
        if r.get("gap_load"):
            agg["gap_msgs"]["load: " + r["gap_load"]] = 1
    # the same number of each leg, each case once
    byleg = {}
    for x in samples:
        if x not in byleg.setdefault(x["leg"], []):
            byleg[x["leg"]].append(x)
    samples = [x for k in range(10) for v in byleg.values() for x in v[k:k + 1]]
    violations = 0
    lines = []
    if failures:
        failures.sort(key=lambda f: (len(f["case"]), f["case"]))
        f = failures[0]
        os.makedirs(os.path.join(core.ROOT, "replays"), exist_ok=True)
        path = os.path.join(core.ROOT, "replays", "%s-%s.json" % (a.prop, core.case_hash(f["case"])))
        json.dump({"property": a.prop, "leg": f["leg"], "case": f["case"], "msg": f["msg"], "seed": seed, "tier": tier,
                   "unshrunk_case": f["orig"], "flaky": f.get("flaky"), "reproduced": f.get("reproduced"),
                   "workers_failing": len(failures)}, open(path, "w"), indent=1)
        violations = len(failures)
        lines.append("failing case: %s" % f["case"][:3000])
        lines.append("what failed: %s" % f["msg"][:1200])
        lines.append("replay with: ./check.sh %s --replay %s" % (a.prop, path))
        lines.append("VIOLATION property=%s replay=%s" % (a.prop, path))
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": agg["evaluations"], "distinct_nontrivial": len(nontriv), "rule": meta["rule"],
                       "samples": samples[:10], "classes": dict(sorted(agg["classes"].items())),
                       "counters": dict(sorted(agg["counters"].items())), "discarded": agg["discards"],
                       "inconclusive": agg["gaps"], "inconclusive_reasons": dict(list(agg["gap_msgs"].items())[:8]),
                       "workers": n, "time_capped": any(r["stats"]["capped"] for r in good)},
          "wall_s": round(time.monotonic() - t0, 2), "violations": violations,
          "assumptions": meta["assumptions"]}
    os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(core.ROOT, "evidence", a.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("property %s tier=%s seed=%d: %d cases, %d distinct non-trivial, %d inconclusive, %d discarded, %.1f s" % (
        a.prop, tier, seed, agg["evaluations"], len(nontriv), agg["gaps"], agg["discards"], time.monotonic() - t0))
    if agg["gap_msgs"]:
        print("inconclusive reasons: %s" % json.dumps(dict(list(agg["gap_msgs"].items())[:5]))[:1500])
    if a.v:
        print(json.dumps(agg["classes"], indent=1, sort_keys=True))
        print(json.dumps(agg["counters"], indent=1, sort_keys=True))
    for k in known_findings(a.prop):
        print("KNOWN-FINDING: %s" % k)
    for l in lines:
        print(l)
    if violations:
        return 1
    if load_broken and not good:
        os.makedirs(os.path.join(core.ROOT, "replays"), exist_ok=True)
        path = os.path.join(core.ROOT, "replays", "%s-load.txt" % a.prop)
        open(path, "w").write(load_broken[0]["error"])
        print(load_broken[0]["error"][-3000:])
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if errors or broken:
        for e in errors:
            print("HARNESS ERROR:\n" + e["error"][-3000:])
        for b in broken:
            print("HARNESS ERROR: " + b)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
