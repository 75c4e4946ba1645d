"""Stratified workload generators (pure NumPy)."""

import numpy as np

from . import refmodel as R

GAL_STRATA = ("default", "uniform", "uspace", "corner", "sharp", "noquench", "deep", "norejuv", "early_q", "lowsfr")
HALO_STRATA = ("default", "uniform", "earlypeak", "peak_on_grid", "neverpeak", "dwarf", "cluster", "slow", "fast")


def galaxy(rng, n, strata=None):
    """(8 arrays of shape (n,), list of stratum names)"""
    names = list(strata or GAL_STRATA)
    pick = [names[i % len(names)] for i in rng.permutation(n)] if n > 1 else [names[rng.integers(len(names))]]
    P = {k: rng.uniform(*R.BOUNDS[k], n) for k in R.PNAMES}
    out = {k: np.empty(n) for k in R.PNAMES}
    for i, s in enumerate(pick):
        v = {k: P[k][i] for k in R.PNAMES}
        v["lg_rejuv"] = rng.uniform(v["lg_drop"], 0.0)
        if s == "default":
            v = dict(R.DEFAULTS)
        elif s == "uspace":
            u = [rng.normal(0.5 * sum(R.BOUNDS[k]), (R.BOUNDS[k][1] - R.BOUNDS[k][0])) for k in R.PNAMES]
            v = dict(zip(R.PNAMES, [float(x) for x in R.bound_galaxy(u)]))
        elif s == "corner":
            for k in R.PNAMES[:7]:
                lo, hi = R.BOUNDS[k]
                e = 1e-3 * (hi - lo)
                v[k] = (lo + e, hi - e, 0.5 * (lo + hi))[rng.integers(3)]
            v["lg_rejuv"] = (v["lg_drop"], 0.5 * v["lg_drop"], 0.0)[rng.integers(3)]
        elif s == "sharp":
            v["qlglgdt"] = rng.uniform(-2.99, -2.0)
        elif s == "noquench":
            v["lg_drop"] = v["lg_rejuv"] = 0.0
        elif s == "deep":
            v["lg_drop"] = rng.uniform(-3.0, -2.5)
            v["lg_rejuv"] = rng.uniform(v["lg_drop"], v["lg_drop"] + 0.5)
        elif s == "norejuv":
            v["lg_rejuv"] = v["lg_drop"]
        elif s == "early_q":
            v["lg_qt"] = rng.uniform(0.1, 0.5)
        elif s == "lowsfr":
            v["lgmcrit"], v["lgy_at_mcrit"] = 13.4, -11.9
            v["indx_lo"] = rng.uniform(3.0, 5.0)
        for k in R.PNAMES:
            out[k][i] = v[k]
    return tuple(out[k] for k in R.PNAMES), pick


def halo(rng, n, tgrid=None, t0=13.8, strata=None):
    names = list(strata or HALO_STRATA)
    pick = [names[i % len(names)] for i in rng.permutation(n)] if n > 1 else [names[rng.integers(len(names))]]
    logm0 = rng.uniform(10.5, 15.0, n)
    logtc = rng.uniform(-0.5, 0.9, n)
    late = rng.uniform(0.11, 1.5, n)
    early = late + rng.uniform(0.2, 5.0, n)
    tp = rng.uniform(1.0, 1.1 * t0, n)
    for i, s in enumerate(pick):
        if s == "default":
            logm0[i], logtc[i], early[i], late[i], tp[i] = 12.0, 0.05, 2.6137643, 0.12692805, 14.0
        elif s == "earlypeak":
            tp[i] = rng.uniform(0.3, 3.0)
        elif s == "peak_on_grid" and tgrid is not None and len(tgrid):
            tp[i] = tgrid[rng.integers(len(tgrid))]
        elif s == "neverpeak":
            tp[i] = t0 * 1.5
        elif s == "dwarf":
            logm0[i] = rng.uniform(8.0, 10.5)
        elif s == "cluster":
            logm0[i] = rng.uniform(14.5, 15.8)
        elif s == "slow":
            early[i], late[i] = late[i] + 0.05, late[i]
        elif s == "fast":
            early[i] = rng.uniform(6.0, 9.5)
    return (logm0, logtc, early, late, tp), pick


def cosmo(rng):
    """lgt0, fb, t0, label"""
    k = rng.integers(4)
    t0 = (13.8, 13.8, float(rng.uniform(9.0, 20.0)), float(rng.uniform(12.5, 14.5)))[k]
    fb = (0.156, float(rng.uniform(0.05, 0.3)), float(rng.uniform(0.05, 0.3)), 1.0)[k]
    return float(np.log10(t0)), fb, t0, "cosmo%d" % k


def shapes(rng, k, r=0):
    """k pairs (galaxies, times): equal, and equal to the number of parameters of a galaxy (4, 8) or a halo (5)"""
    out = [(4, 4), (5, 5), (8, 8), (4, 7), (5, 6), (3, 3), (2, 2), (7, 4), (7, 5), (4, 5), (5, 4), (8, 3), (3, 8), (13, 5), (9, 9)]
    out += [(int(rng.integers(1, 12)), int(rng.integers(2, 12))) for _ in range(5)]
    return [out[(r * k + i) % len(out)] for i in range(k)]


GRIDS = ("lin", "log", "random", "fine", "late", "beyond", "two", "three", "clustered")


def grid(rng, n=None, t0=13.8, kind=None, tmin=0.05):
    """strictly increasing float32-exact times, and label"""
    kind = kind or GRIDS[rng.integers(len(GRIDS))]
    n = int(n or rng.choice([4, 5, 17, 50, 100]))
    if kind == "lin":
        t = np.linspace(0.1, t0, n)
    elif kind == "log":
        t = np.logspace(-1.3, np.log10(t0), n)
    elif kind == "random":
        t = np.sort(rng.uniform(tmin, t0, n))
    elif kind == "fine":
        c = rng.uniform(1.0, t0 - 1)
        t = np.linspace(c, c + 0.2, n)
    elif kind == "late":
        t = np.linspace(t0 - 2.0, t0, n)
    elif kind == "beyond":
        t = np.linspace(1.0, 3.0 * t0, n)
    elif kind == "two":
        t = np.sort(rng.uniform(0.5, t0, 2))
        t[1] += 0.1
    elif kind == "three":
        t = np.cumsum(rng.uniform(0.3, 4.0, 3))
    elif kind == "clustered":
        t = np.sort(np.concatenate([rng.uniform(1, 1.3, max(n // 2, 1)), rng.uniform(8, t0, max(n - n // 2, 1))]))
    t = np.asarray(t, np.float32).astype(np.float64)
    keep = np.concatenate([[True], np.diff(t) > 1e-4])
    return t[keep], kind


def f32(x):
    """values representable in float32, as float64, so that both modes see identical inputs"""
    return np.asarray(np.asarray(x, np.float32), np.float64)


def f32t(tup):
    return tuple(f32(x) for x in tup)


def pop_dict(rng, kind="uniform", base=None):
    """population parameters (dict in reference order), strictly interior"""
    out = {}
    for k, (lo, hi) in R.ALL_POP_BOUNDS.items():
        if kind == "uniform":
            f = rng.uniform(0.02, 0.98)
        elif kind == "near":
            f = None
        elif kind == "mid":
            f = 0.5
        elif kind == "zeroslope":
            f = 0.5 if k.endswith(("_slp", "_slope")) else rng.uniform(0.1, 0.9)
        elif kind == "gentle":
            f = rng.uniform(0.3, 0.7)
        if f is None:
            p = base[k] + 0.05 * (hi - lo) * rng.normal()
            e = 0.01 * (hi - lo)
            v = float(np.clip(p, lo + e, hi - e))
        else:
            v = lo + f * (hi - lo)
            if kind == "gentle" and k.endswith("_slp") and (hi - lo) > 10:
                v = rng.uniform(-1.5, 1.5)
        out[k] = float(np.float32(v))
    return out


def satellites(rng, n):
    """upid, lgmu, lgmhost, gyr"""
    is_cen = rng.random(n) < 0.5
    upid = np.where(is_cen, -1, rng.integers(0, 2**31 - 1, n))
    lgmu = np.where(is_cen, 0.0, rng.uniform(-5, 0, n))
    lgmh = np.where(is_cen, 0.0, rng.uniform(11, 15.5, n))
    gyr = np.where(is_cen, -100.0, rng.uniform(-3, 12, n))
    return upid, f32(lgmu), f32(lgmh), f32(gyr)
