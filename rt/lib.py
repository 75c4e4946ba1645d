"""Shared adapters between the generators, the reference model and the real code."""

import numpy as np
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS

from diffstar import DiffstarParams, calc_sfh_galpop, calc_sfh_singlegal

from . import refmodel as R

MAH = type(DEFAULT_MAH_PARAMS)
LGFLOOR = np.log10(R.SFR_MIN)


def gal(p):
    return DiffstarParams(*p)


def mah(m):
    return MAH(*m)


def row(tup, i):
    return tuple(float(np.asarray(x)[i]) for x in tup)


def lg(x):
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.log10(np.asarray(x, dtype=np.float64))


def ref_lgsfr(p, m, t, lgt0, fb):
    """reference log10 SFR with the floor; p, m lists of (n,) -> (n, nt); floats -> (nt,)"""
    if np.ndim(p[0]):
        p, m = R.col(p), R.col(m)
    return np.maximum(R.lg_sfr(p, m, t, lgt0, fb), LGFLOOR)


def tol_lgsfr(mon, p, m, t, lgt0, fb):
    """dex tolerance: rounding of each intermediate propagated through the reference"""
    if mon.x64:
        d_lgt, d_m, base = 4e-15, 1e-13, 1e-10
    else:
        d_lgt, d_m, base = 3e-7, 1.0e-5, 2e-5
    if np.ndim(p[0]):
        p, m = R.col(p), R.col(m)
    lgm = R.lgmh(m, t, lgt0)
    e0 = R.lg_eff(lgm, *p[:4])
    eff = np.abs(R.lg_eff(lgm + d_m, *p[:4]) - e0) + np.abs(R.lg_eff(lgm - d_m, *p[:4]) - e0)
    lgt = np.log10(t)
    q0 = R.lg_quench(lgt, *p[4:])
    q = np.zeros_like(q0)
    for s in (1.0, -1.0):
        for w in (1.0, 0.3):
            q = np.maximum(q, np.abs(R.lg_quench(lgt + s * w * d_lgt, *p[4:]) - q0))
    mag = 20.0 + np.abs(lgm) + np.abs(e0)
    return base + eff + 2 * q + mag * (1e-15 if mon.x64 else 5e-7)


def check_sfh(mon, sfh, p, m, t, lgt0, fb, oracle, /, **kw):
    """SFH against the reference, plus finiteness and the floor"""
    s = np.asarray(sfh, np.float64)
    want = ref_lgsfr(p, m, t, lgt0, fb)
    mon.ok(np.isfinite(s), oracle + ":finite", **kw)
    fl = R.SFR_MIN * (1 - (1e-14 if mon.x64 else 2e-7))
    mon.ok(s >= fl, oracle + ":floor", **kw)
    return mon.close(lg(s), want, tol_lgsfr(mon, p, m, t, lgt0, fb), oracle, **kw)


def eps(mon):
    return 2.3e-16 if mon.x64 else 1.2e-7


def feat(*names):
    return "+".join(sorted(set(names)))


def ld(mon, name):
    """dtype the mode computes in"""
    return np.float64 if mon.x64 else np.float32


def call_single(p, m, t, lgt0, fb, **kw):
    return calc_sfh_singlegal(gal(p), mah(m), t, lgt0=lgt0, fb=fb, **kw)


def call_pop(p, m, t, lgt0, fb, **kw):
    return calc_sfh_galpop(gal(p), mah(m), t, lgt0=lgt0, fb=fb, **kw)


def inv_sigmoid_tol(mon, y, lo, hi, k):
    """rounding error of x0 - log((hi-lo)/(y-lo) - 1)/k, and where that error is small enough to say anything"""
    e = eps(mon)
    y, lo, hi = np.asarray(y, np.float64), np.asarray(lo, np.float64), np.asarray(hi, np.float64)
    with np.errstate(divide="ignore", invalid="ignore"):
        f = (y - lo) / (hi - lo)
        mag = np.abs(lo) + np.abs(hi)
        drel = e * ((mag + np.abs(y)) / np.abs(y - lo) + mag / np.abs(hi - lo) + 4)
        dlog = drel / (1 - f)
        usable = (f > 0) & (f < 1) & (dlog < 0.02)
    return np.where(usable, 8 * dlog / np.abs(k), np.inf), usable, f
