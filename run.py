#!/usr/bin/env python3
"""Entry point of every check.

    run.py C01                      the tier in VERIF_TIER (default quick), the seed in VERIF_SEED (default 1)
    run.py C01 --tier thorough
    run.py C01 --replay FILE        one saved case
"""
import argparse
import json
import os
import signal
import subprocess
import sys
import tempfile
import shutil
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
KNOWN = os.path.join(HERE, "known_findings.json")


def environment():
    env = dict(os.environ)
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
    env.pop("PYTHONPATH", None)
    return env


def worker(args):
    from pbt import boot
    boot.boot()
    from pbt import core
    spec = json.loads(args.shard)
    try:
        res = core.explore(args.prop, args.tier, args.seed, spec["shard"], spec["cases"], spec["budget"], spec["shrink"],
                           spec["out"] + ".case")
    except BaseException:
        import traceback
        res = {"n": 0, "labels": {}, "hashes": [], "samples": [], "best": None, "msg": None, "stopped": False,
               "wall": 0, "error": traceback.format_exc()[-6000:]}
    with open(spec["out"] + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(spec["out"] + ".tmp", spec["out"])


def replay(args):
    from pbt import boot
    boot.boot()
    import warnings
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    from pbt import core
    with open(args.replay) as f:
        data = json.load(f)
    from pbt import plan
    p = plan.plan(args.prop, args.tier)
    mod = core.load(args.prop)
    quiet = open(os.devnull, "w")
    real = sys.stdout
    sys.stdout = quiet
    try:
        stats, msg = core.run_case(mod, data["case"], p["guard"])
    finally:
        sys.stdout = real
    if msg is None:
        print("property %s holds on %s" % (args.prop, args.replay))
        return 0
    print(msg)
    print("VIOLATION property=%s replay=%s" % (args.prop, args.replay))
    return 1


def known_findings(prop):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == prop]
    except FileNotFoundError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--shard")
    ap.add_argument("--shards", type=int)
    ap.add_argument("--cases", type=int, help="cases per run, instead of the property's own number")
    ap.add_argument("--no-evidence", action="store_true", help="leave the evidence file alone (set-up smoke test)")
    ap.add_argument("--budget", type=float, help="seconds of generation per shard")
    args = ap.parse_args()
    if args.shard:
        return worker(args)
    if args.replay:
        if os.environ.get("PYTHONHASHSEED") != "0":
            os.execve(PY, [PY] + sys.argv, environment())
        return replay(args)

    t0 = time.time()
    from pbt import plan
    p = plan.plan(args.prop, args.tier)
    shards = args.shards or p["shards"]
    cases = args.cases or p["cases"]
    budget = args.budget or p["budget"]
    tmp = tempfile.mkdtemp(prefix="pyctbn_run_")
    procs = []
    try:
        for k in range(shards):
            spec = {"shard": k, "cases": max(1, cases // shards), "budget": budget, "shrink": p["shrink"],
                    "out": os.path.join(tmp, "s%d.json" % k)}
            err = open(os.path.join(tmp, "s%d.err" % k), "w")
            procs.append((spec, subprocess.Popen(
                [PY, os.path.abspath(__file__), args.prop, "--tier", args.tier, "--seed", str(args.seed),
                 "--shard", json.dumps(spec)], cwd=tmp, env=environment(), stdin=subprocess.DEVNULL,
                stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)))
        results, errors = collect(procs, t0 + budget + p["shrink"] + 300, p["guard"])
    finally:
        for _, proc in procs:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        shutil.rmtree(tmp, ignore_errors=True)
    return report(args, p, results, errors, time.time() - t0)


def collect(procs, deadline, guard):
    """Waits for the shards. A shard whose present case has not ended long after its time guard is ended and reported
    as a hang on that case; once a shard has found a violation the others get a minute."""
    results, errors = [], []
    waiting = list(procs)
    found = None
    while waiting:
        time.sleep(0.05)
        for item in list(waiting):
            spec, proc = item
            now = time.time()
            hung = None
            if proc.poll() is None:
                try:
                    if now - os.stat(spec["out"] + ".case").st_mtime > guard + 40:
                        hung = open(spec["out"] + ".case").read()
                except OSError:
                    pass
                late = now > deadline or (found is not None and now - found > 60)
                if hung is None and not late:
                    continue
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            proc.wait()
            waiting.remove(item)
            if os.path.exists(spec["out"]):
                with open(spec["out"]) as f:
                    results.append(json.load(f))
            elif hung is not None:
                results.append({"n": 1, "labels": {}, "hashes": [], "samples": [], "best": json.loads(hung),
                                "msg": "HANG the case did not end", "stopped": False, "wall": 0, "error": None})
            else:
                with open(spec["out"][:-4] + "err") as f:
                    errors.append("shard %d left no result: %s" % (spec["shard"], f.read()[-3000:]))
                continue
            if results[-1]["best"] is not None and found is None:
                found = now
    return results, errors


def report(args, p, results, errors, wall):
    from collections import Counter
    labels = Counter()
    hashes = set()
    samples = []
    n = 0
    for r in results:
        n += r["n"]
        labels.update(r["labels"])
        hashes.update(r["hashes"])
        samples += r["samples"][:2]
        if r["error"]:
            errors.append(r["error"])
    bad = sorted((r for r in results if r["best"] is not None), key=lambda r: len(json.dumps(r["best"])))
    violations = []
    for k in known_findings(args.prop):
        print("KNOWN-FINDING: property=%s %s" % (args.prop, k["what"]))
    for r in bad:
        if any(k["match"] in r["msg"] for k in known_findings(args.prop)):
            continue
        violations.append(r)
    ev = {
        "property": args.prop, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": n, "distinct_nontrivial": len(hashes), "rule": p["rule"],
            "samples": samples[:8] or ["none"],
            "classes": dict(sorted(labels.items())),
            "shards": len(results), "shards_stopped_by_budget": sum(bool(r["stopped"]) for r in results),
        },
        "assumptions": p["assumptions"], "wall_s": round(wall, 2), "violations": len(violations),
    }
    if not args.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", args.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if violations:
        r = violations[0]
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%s_%d.json" % (args.prop, args.tier, args.seed))
        with open(path, "w") as f:
            json.dump({"property": args.prop, "message": r["msg"], "case": r["best"]}, f)
        print(r["msg"])
        print("VIOLATION property=%s replay=%s" % (args.prop, path))
        return 1
    if errors:
        print("ERROR in the check of %s:" % args.prop)
        for e in errors[:3]:
            print(e)
        return 2
    if n == 0:
        print("ERROR nothing was explored")
        return 2
    print("%s holds on %d cases (%d distinct non-trivial), %.1f s" % (args.prop, n, len(hashes), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
