"""Runs one check: python run.py C01 [--tier quick|thorough] | --replay FILE | --selfcheck

exit 0 held on everything observed; exit 1 with a VIOLATION line; exit 2 when
the monitors could not decide (a worker died or a monitor was never reached).
"""

import argparse
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable

LEVEL = {"C17": "fault_enumeration"}
SHARDS = {"quick": 1, "thorough": 4}
QUICK_SHARDS = {}
BUDGET = {"quick": 0, "thorough": 420}
WATCHDOG = {"quick": 600, "thorough": 840}


def worker_env(mode, scratch):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "VERIF_REPO", "VERIF_COV", "COVERAGE_CORE")}
    env.update(
        PYTHONPATH=HERE,
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        JAX_PLATFORMS="cpu",
        JAX_ENABLE_X64="1" if mode == "x64" else "0",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MPLBACKEND="Agg",
        HDF5_USE_FILE_LOCKING="FALSE",
        TMPDIR=scratch,
        TF_CPP_MIN_LOG_LEVEL="3",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false",
    )
    return env


def run_workers(prop, tier, seed, only=None, modes=("f32", "x64")):
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    jobs = []
    try:
        nsh = 1 if only else (QUICK_SHARDS.get(prop, 1) if tier == "quick" else SHARDS[tier])
        for mode in modes:
            for sh in range(nsh):
                out = os.path.join(scratch, "%s_%d.json" % (mode, sh))
                a = dict(prop=prop, tier=tier, seed=seed, mode=mode, shard=sh, nshards=nsh,
                         budget=BUDGET[tier], out=out, only=only)
                log = open(os.path.join(scratch, "%s_%d.log" % (mode, sh)), "w")
                p = subprocess.Popen([PY, "-m", "rt.worker", json.dumps(a)], cwd=scratch,
                                     env=worker_env(mode, scratch), stdout=log,
                                     stderr=subprocess.STDOUT, start_new_session=True)
                jobs.append((mode, sh, out, log, p))
        deadline = time.time() + WATCHDOG[tier]
        results, errors = [], []
        for mode, sh, out, log, p in jobs:
            try:
                rc = p.wait(timeout=max(1.0, deadline - time.time()))
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
                rc = "watchdog"
            log.close()
            if os.path.exists(out):
                r = json.load(open(out))
                r["mode"], r["shard"] = mode, sh
                results.append(r)
                if r.get("err"):
                    errors.append(r["err"])
            else:
                tail = open(log.name).read()[-1500:]
                errors.append("worker %s/%d ended with %s: %s" % (mode, sh, rc, tail))
        return results, errors
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def load_known():
    """lines 'finding: property=<id> oracle=<oracle> <what>'; fixed: lines suppress nothing"""
    out = []
    fn = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                out.append((parts[1].split("=", 1)[1], parts[2].split("=", 1)[1], parts[3].strip()))
    return out


def check(prop, tier, seed):
    t0 = time.time()
    results, errors = run_workers(prop, tier, seed)
    counts, states, samples, viols, done, skipped, times, margins = {}, set(), [], [], {}, {}, {}, {}
    rule, assumptions = "", []
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        states |= {r["mode"] + "|" + s for s in r["states"]}
        samples += r["samples"][:2]
        viols += r["viols"]
        for k, v in r["done"].items():
            done[k] = done.get(k, 0) + v
        for k, v in r["skipped"].items():
            skipped[k] = skipped.get(k, 0) + v
        for k, v in r["times"].items():
            times[k] = round(times.get(k, 0) + v, 2)
        for k, v in r["margins"].items():
            margins[k] = max(v, margins.get(k, 0.0))
        rule, assumptions = r["rule"] or rule, r["assumptions"] or assumptions
    known = load_known()
    new, seen_known = [], []
    for v in viols:
        hit = [k for k in known if k[0] == prop and k[1] == v["oracle"]]
        (seen_known if hit else new).append(v)
        for k in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    evals = sum(counts.values())
    ev = dict(
        property=prop, tier=tier, seed=seed, level=LEVEL.get(prop, "exploration"),
        coverage=dict(
            evaluations=evals,
            distinct_nontrivial=len(states),
            rule=rule,
            samples=samples[:6],
            oracle_evaluations=dict(sorted(counts.items())),
            executions_per_case=done,
            executions_cut_by_time_budget=skipped,
            case_seconds=times,
            worst_error_over_tolerance={k: round(v, 4) for k, v in sorted(margins.items())},
            processes=len(results),
            classes_sample=sorted(states)[:40],
        ),
        assumptions=assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=len(new),
    )
    from rt.core import write_json

    write_json(os.path.join(HERE, "evidence", prop + ".json"), ev)
    if new:
        first, rest = [], []
        for v in new:
            (rest if v["oracle"] in [x["oracle"] for x in first] else first).append(v)
        for v in (first + rest)[:8]:
            h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
            rp = os.path.join(HERE, "evidence", "replays", "%s-%s.json" % (prop, h))
            write_json(rp, v)
            d = v["detail"]
            lead = ("n_bad", "index", "got", "want", "tol", "error", "where")
            d = {k: d[k] for k in sorted(d, key=lambda k: k not in lead)}
            print("  %s [%s rep %s %s] %s" % (v["oracle"], v["case"], v["rep"], v["mode"],
                  json.dumps({k: d[k] for k in list(d)[:8] if k != "tb"})[:600]))
            if "tb" in d:
                print("   | " + d["tb"][-700:].replace("\n", "\n   | "))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errors:
        print("INCONCLUSIVE: " + " || ".join(e[-1200:] for e in errors))
        return 2
    if evals == 0 or not states or any(n == 0 for n in done.values()):
        print("INCONCLUSIVE: a monitor was never reached")
        return 2
    print("HELD property=%s tier=%s: %d oracle evaluations, %d oracles, %d distinct workload "
          "classes, %d executions, %.1f s" % (prop, tier, evals, len(counts), len(states),
                                             sum(done.values()), time.time() - t0))
    return 0


def replay(fn):
    v = json.load(open(fn))
    results, errors = run_workers(v["property"], v["tier"], v["seed"],
                                  only=(v["case"], v["rep"]), modes=(v["mode"],))
    viols = [x for r in results for x in r["viols"]]
    for x in viols:
        print(json.dumps(x, indent=1)[:3000])
    for e in errors:
        print(e)
    print("replay: %d violations reproduced" % len(viols))
    return 1 if viols else (2 if errors else 0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--selfcheck", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.selfcheck:
        env = worker_env("x64", tempfile.gettempdir())
        return subprocess.call([PY, "-m", "rt.selfcheck"], cwd=HERE, env=env)
    if a.replay:
        return replay(a.replay)
    return check(a.prop, a.tier, seed)


if __name__ == "__main__":
    sys.exit(main())
