"""Which lines of the repository no check executes: tools/reach.py [C01 C02 ...]

Runs the quick tier of the checks under coverage.py and lists, per file, the
lines of function bodies that were not executed. A guide for writing
workloads; no check depends on it. Code run in further processes (ranks,
children) is not recorded.
"""

import os
import subprocess
import sys
import tempfile

import coverage

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def main():
    ids = sys.argv[1:] or ["C%02d" % i for i in range(1, 27)]
    with tempfile.TemporaryDirectory() as d:
        env = dict(os.environ, VERIF_COV=d, COVERAGE_CORE="sysmon", VERIF_SEED="1")
        for i in ids:
            r = subprocess.run([sys.executable, "run.py", i, "--tier", "quick"], cwd=HERE, env=env, capture_output=True, text=True)
            print(i, r.returncode, flush=True)
        cov = coverage.Coverage(data_file=os.path.join(d, "c"))
        cov.combine([d], keep=True)
        for fn in sorted(cov.get_data().measured_files()):
            if "/tests/" in fn:
                continue
            _, lines, _, missing, text = cov.analysis2(fn)
            print("%5.1f%%  %s  %s" % (100 * (1 - len(missing) / max(len(lines), 1)), os.path.relpath(fn, REPO), text))


if __name__ == "__main__":
    main()
