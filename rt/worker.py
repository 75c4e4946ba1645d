"""One monitored process: python -m rt.worker <args as json>"""

import importlib
import json
import os
import sys


def setup_import():
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    # build product of setuptools_scm, ignored by git: recreate when absent
    if not os.path.exists(os.path.join(repo, "diffstar", "_version.py")):
        import types

        m = types.ModuleType("diffstar._version")
        m.__version__ = m.version = "0.0.0"
        sys.modules["diffstar._version"] = m


def main():
    a = json.loads(sys.argv[1])
    setup_import()
    cov = None
    if os.environ.get("VERIF_COV"):  # tools/reach.py: which lines of the repository do the checks execute
        import coverage

        src = os.environ.get("VERIF_REPO", "/repo")
        cov = coverage.Coverage(data_file=os.path.join(os.environ["VERIF_COV"], "c"), data_suffix=True, source=[src + "/diffstar", src + "/scripts"])
        cov.start()
    from rt import core

    mon = core.Mon(a["prop"], a["tier"], a["seed"], a["mode"])
    err = None
    done = skipped = times = {}
    try:
        mod = importlib.import_module("rt.checks." + a["prop"].lower())
    except Exception:
        import traceback

        tb = traceback.format_exc()
        mon.case, mon.rep = "import", 0
        # the names a check imports are the published ones: losing one breaks users
        mon.fail("import:no-exception", tb=tb[-1800:])
        mod = None
    if mod is not None:
        import diffstar

        src = os.path.realpath(diffstar.__file__)
        want = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
        if not src.startswith(want + os.sep):
            err = "diffstar imported from %s, not from %s" % (src, want)
        else:
            done, skipped, times = core.run_cases(
                mod.CASES, mon, a["shard"], a["nshards"], a["budget"], a.get("only")
            )
    rep = mon.report()
    rep.update(
        done=done,
        skipped=skipped,
        times=times,
        err=err,
        rule=getattr(mod, "RULE", ""),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
    )
    if cov:
        cov.stop()
        cov.save()
    core.write_json(a["out"], rep)


if __name__ == "__main__":
    main()
