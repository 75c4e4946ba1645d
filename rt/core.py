"""Monitor, case registry and verdict discipline shared by all checks.

A *case* drives the real code with one generated workload.  A *monitor* (Mon)
observes the calls and returns, counts every oracle evaluation, remembers the
distinct workload classes it saw and records violations with what is needed to
replay them.
"""

import json
import os
import time
import traceback
import zlib
from collections import Counter

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MAX_VIOL_PER_ORACLE = 3


def jsonable(x, limit=400):
    if hasattr(x, "_asdict"):
        return {k: jsonable(v, limit) for k, v in x._asdict().items()}
    if isinstance(x, dict):
        return {str(k): jsonable(v, limit) for k, v in x.items()}
    if isinstance(x, (str, bool, int, type(None))):
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, (list, tuple)) and not all(
        isinstance(e, (int, float)) for e in x
    ):
        return [jsonable(e, limit) for e in x[:limit]]
    try:
        a = np.asarray(x)
    except Exception:
        return repr(x)[:200]
    if a.dtype == object or a.dtype.kind not in "biuf":
        return repr(x)[:500]
    if a.ndim == 0:
        v = a.item()
        return v if not isinstance(v, float) or np.isfinite(v) else repr(v)
    flat = a.ravel()[:limit].tolist()
    flat = [
        v if not isinstance(v, float) or np.isfinite(v) else repr(v) for v in flat
    ]
    if a.ndim == 1 and a.size <= limit:
        return flat
    return {"shape": list(a.shape), "head": flat}


class Abort(Exception):
    """Raised to stop the current case after a violation that makes the rest moot"""


class Mon:
    def __init__(self, prop, tier, seed, mode):
        self.prop, self.tier, self.seed, self.mode = prop, tier, seed, mode
        self.counts = Counter()
        self.states = set()
        self.samples = []
        self.viols = []
        self._vcount = Counter()
        self.case = None
        self.rep = None
        self.margins = {}
        self.t0 = time.time()

    @property
    def x64(self):
        return self.mode == "x64"

    def fail(self, oracle, /, **detail):
        self._vcount[oracle] += 1
        if self._vcount[oracle] > MAX_VIOL_PER_ORACLE:
            return
        self.viols.append(
            dict(
                property=self.prop,
                oracle=oracle,
                case=self.case,
                rep=self.rep,
                seed=self.seed,
                mode=self.mode,
                tier=self.tier,
                detail=jsonable(detail),
            )
        )

    def ok(self, cond, oracle, /, **detail):
        """cond: bool or boolean array; each element is one oracle evaluation"""
        c = np.asarray(cond)
        if c.size == 0:
            return True
        self.counts[oracle] += int(c.size)
        good = bool(c.all())
        if not good:
            bad = np.argwhere(~c)[:5].tolist() if c.ndim else []
            self.fail(oracle, **{**detail, "n_bad": int((~c).sum()), "where": bad})
        return good

    def close(self, got, want, tol, oracle, /, **detail):
        """|got-want| <= tol elementwise; NaN anywhere in got is a failure"""
        g = np.asarray(got, dtype=np.float64)
        w = np.asarray(want, dtype=np.float64)
        if g.shape != w.shape:
            self.counts[oracle] += 1
            self.fail(oracle, **{**detail, "reason": "shape", "got": list(g.shape), "want": list(w.shape)})
            return False
        if g.size == 0:
            return True
        tol = np.broadcast_to(np.asarray(tol, dtype=np.float64), g.shape)
        with np.errstate(invalid="ignore"):
            err = np.abs(g - w)
            err = np.where(g == w, 0.0, err)
            good = err <= tol
        self.counts[oracle] += int(g.size)
        with np.errstate(divide="ignore", invalid="ignore"):
            ratio = np.where(tol > 0, err / tol, np.where(err == 0, 0.0, np.inf))
        r = float(np.nanmax(ratio)) if np.isfinite(ratio).any() else 0.0
        if r > self.margins.get(oracle, -1.0):
            self.margins[oracle] = r
        if not good.all():
            k = np.unravel_index(int(np.argmin(good)), g.shape)
            self.fail(
                oracle,
                **{
                    **detail,
                    "n_bad": int((~good).sum()),
                    "index": [int(i) for i in k],
                    "got": float(g[k]),
                    "want": float(w[k]),
                    "tol": float(tol[k]),
                },
            )
            return False
        return True

    def same(self, got, want, oracle, /, **detail):
        """exact equality, NaN equal to NaN"""
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.counts[oracle] += 1
            self.fail(oracle, **{**detail, "reason": "shape", "got": list(g.shape), "want": list(w.shape)})
            return False
        if g.dtype.kind == "f" and w.dtype.kind == "f":
            eq = (g == w) | (np.isnan(g) & np.isnan(w))
        else:
            eq = g == w
        eq = np.asarray(eq)
        self.counts[oracle] += max(1, int(eq.size))
        if not eq.all():
            k = np.unravel_index(int(np.argmin(eq)), eq.shape) if eq.ndim else ()
            self.fail(
                oracle,
                **{
                    **detail,
                    "n_bad": int((~eq).sum()),
                    "index": [int(i) for i in k],
                    "got": jsonable(g[k]),
                    "want": jsonable(w[k]),
                },
            )
            return False
        return True

    def state(self, *key):
        self.states.add("|".join(str(k) for k in key))

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(dict(case=self.case, mode=self.mode, **jsonable(kw, 12)))

    def report(self):
        return dict(
            counts=dict(self.counts),
            states=sorted(self.states),
            samples=self.samples,
            viols=self.viols,
            margins=self.margins,
            wall=time.time() - self.t0,
        )


class Case:
    def __init__(self, fn, quick, thorough, modes):
        self.fn, self.name = fn, fn.__name__
        self.quick, self.thorough, self.modes = quick, thorough, modes


class Registry(list):
    def __call__(self, quick=1, thorough=None, modes=("f32", "x64")):
        def deco(fn):
            self.append(Case(fn, quick, thorough or 8 * quick, modes))
            return fn

        return deco


def case_rng(seed, name, rep, mode):
    return np.random.default_rng(
        [int(seed) & 0xFFFFFFFF, zlib.crc32(name.encode()), int(rep), mode == "x64"]
    )


def run_cases(cases, mon, shard, nshards, budget_s, only=None):
    """only: (case name, rep) to replay a single execution"""
    t0 = time.time()
    done = Counter()
    skipped = Counter()
    todo = []
    for c in cases:
        if mon.mode not in c.modes:
            continue
        n = c.quick if mon.tier == "quick" else c.thorough
        for rep in range(n):
            if only is not None:
                if (c.name, rep) != tuple(only):
                    continue
            elif rep % nshards != shard:
                continue
            todo.append((rep, c))
    todo.sort(key=lambda rc: rc[0])  # breadth first
    times = Counter()
    for rep, c in todo:
        if budget_s and time.time() - t0 > budget_s and done[c.name] > 0:
            skipped[c.name] += 1
            continue
        mon.case, mon.rep = c.name, rep
        rng = case_rng(mon.seed, c.name, rep, mon.mode)
        tc = time.time()
        try:
            c.fn(mon, rng)
        except Abort:
            pass
        except Exception as e:  # no valid workload may raise
            tb = traceback.format_exc()
            mon.fail(f"{c.name}:no-exception", error=repr(e)[:300], tb=tb[-1800:])
        times[c.name] += time.time() - tc
        done[c.name] += 1
    return dict(done), dict(skipped), {k: round(v, 2) for k, v in times.items()}


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1)
    os.replace(tmp, path)
