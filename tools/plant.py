"""Create and try planted bugs (development tool; no check uses it).

plant.py make SPEC.py          write seeded/<id>/ for every bug in SPEC.py
plant.py try ID... [--no-tests] [--no-demo] [--checks C01,C02] [--tier quick] [--seed 1]
                               copy /repo, apply the patch, run demo, tests, check

SPEC.py defines BUGS, a list of dicts: id, property, edits [(file, old, new[, which occurrence])],
demo (python source run with PYTHONPATH=<tree>), needs, breaks.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
REPO = os.environ.get("PLANT_REPO", "/repo")
PY = "/opt/venv/bin/python"
SLOW = "diffstar/fitting_helpers/tests/test_diffstar_fitting_helpers.py::test_diffstar_fitter"
SLOW_ID = "diffstar.fitting_helpers.tests.test_diffstar_fitting_helpers::test_diffstar_fitter"
FITTED = ("diffstar/utils.py", "diffstar/sfh_model.py", "diffstar/defaults.py", "diffstar/__init__.py")
DEMO_SH = """#!/bin/bash
# run with cwd = the diffstar tree; exit 0 when the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
exec /opt/venv/bin/python "$here/demo.py"
"""


def copy_repo(dst):
    subprocess.run(["cp", "-a", REPO, dst], check=True)


def make(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, "exec"), ns)
    for bug in ns["BUGS"]:
        out = os.path.join(SEEDED, bug["id"])
        tmp = tempfile.mkdtemp(prefix="plant_")
        tree = os.path.join(tmp, "repo")
        copy_repo(tree)
        try:
            for fn, old, new, *nth in bug["edits"]:
                path = os.path.join(tree, fn)
                parts = open(path).read().split(old)
                if len(parts) != 2 and not (nth and nth[0] < len(parts) - 1):
                    print("!!", bug["id"], fn, "old text found", len(parts) - 1, "times:", old[:60])
                    break
                k = (nth[0] if nth else 0) + 1
                open(path, "w").write(old.join(parts[:k]) + new + old.join(parts[k:]))
            else:
                diff = subprocess.run(["git", "diff"], cwd=tree, capture_output=True, text=True).stdout
                os.makedirs(out, exist_ok=True)
                open(os.path.join(out, "patch.diff"), "w").write(diff)
                open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
                os.chmod(os.path.join(out, "demo.sh"), 0o755)
                open(os.path.join(out, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
                for name, text in bug.get("files", {}).items():
                    open(os.path.join(out, name), "w").write(text.lstrip("\n"))
                with open(os.path.join(out, "meta.json"), "w") as f:
                    json.dump({"property": bug["property"], "needs": bug["needs"],
                               "what_it_breaks": bug["breaks"]}, f, indent=1)
                    f.write("\n")
                print("made", bug["id"])
        finally:
            shutil.rmtree(tmp)


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def try_one(bid, args):
    d = os.path.join(SEEDED, bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="plant_")
    tree = os.path.join(tmp, "repo")
    demo = os.path.join(tmp, "demo")
    res = {"id": bid, "property": meta["property"]}
    try:
        copy_repo(tree)
        os.makedirs(demo)
        for f in os.listdir(d):
            if f not in ("patch.diff", "meta.json"):
                shutil.copy(os.path.join(d, f), demo)
        if not args.no_demo:
            r = subprocess.run(["bash", demo + "/demo.sh"], cwd=tree, capture_output=True, text=True, timeout=400)
            res["demo_clean"] = r.returncode
            if r.returncode:
                res["demo_clean_out"] = (r.stdout + r.stderr)[-1500:]
        r = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=tree, capture_output=True, text=True)
        if r.returncode:
            res["apply"] = r.stderr
            return res
        if not args.no_demo:
            r = subprocess.run(["bash", demo + "/demo.sh"], cwd=tree, capture_output=True, text=True, timeout=400)
            res["demo_bug"] = r.returncode
            res["demo_bug_out"] = (r.stdout + r.stderr)[-300:]
        env = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE="1")
        if not args.no_tests:
            x = os.path.join(tmp, "j.xml")
            # the slow fitting test sees nothing of populations, losses and loaders
            touched = [ln[6:] for ln in open(os.path.join(d, "patch.diff")).read().splitlines() if ln.startswith("+++ b/")]
            skip = not any(t in FITTED or "fitting_helpers" in t or "/kernels/" in t and "pop" not in t for t in touched)
            subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", str(args.n), "--dist",
                            "worksteal", "--timeout=1500", "-o", "junit_family=xunit2", "--junitxml=" + x, "diffstar"] + (["--deselect", SLOW] if skip else []),
                           cwd=tree, env=env, capture_output=True, text=True)
            import xml.etree.ElementTree as ET
            ok = set()
            for tc in ET.parse(x).getroot().iter("testcase"):
                if not any(c.tag in ("failure", "error", "skipped") for c in tc):
                    ok.add(tc.get("classname") + "::" + tc.get("name"))
            res["tests_lost"] = sorted(stable() - ok - ({SLOW_ID} if skip else set()))
            res["slow_test_run"] = not skip
        props = [meta["property"]] if not args.checks else [] if args.checks == "none" else args.checks.split(",")
        res["checks"] = {}
        for p in props:
            env2 = dict(os.environ, VERIF_REPO=tree, VERIF_SEED=str(args.seed), VERIF_TIER=args.tier)
            t = time.time()
            r = subprocess.run([PY, "run.py", p, "--tier", args.tier], cwd=VERIF, env=env2, capture_output=True,
                               text=True, timeout=4000)
            vio = [ln for ln in r.stdout.splitlines() if ln.startswith("VIOLATION")]
            res["checks"][p] = {"rc": r.returncode, "n_violation_lines": len(vio), "s": round(time.time() - t),
                                "tail": r.stdout.strip().splitlines()[-3:] if r.returncode else
                                r.stdout.strip().splitlines()[-1:], "err": r.stderr[-300:] if r.returncode not in (0, 1) else ""}
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("what", nargs="+")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--no-demo", action="store_true")
    ap.add_argument("--checks", default="")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("-n", type=int, default=4)
    ap.add_argument("--out", default="")
    args = ap.parse_args()
    if args.cmd == "make":
        for s in args.what:
            make(s)
        return
    ids = sorted(os.listdir(SEEDED)) if args.what == ["all"] else args.what
    for b in ids:
        try:
            res = try_one(b, args)
        except Exception as e:  # noqa: BLE001
            res = {"id": b, "error": repr(e)}
        print(json.dumps(res), flush=True)
        if args.out:
            with open(args.out, "a") as f:
                f.write(json.dumps(res) + "\n")


if __name__ == "__main__":
    sys.exit(main())
