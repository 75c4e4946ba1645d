"""C12: Monte Carlo populations are reproducible and internally consistent."""

import jax
import jax.random as jran
import numpy as np

from diffstar.diffstarpop import (
    mc_diffstar_params_galpop,
    mc_diffstar_params_singlegal,
    mc_diffstar_sfh_galpop,
    mc_diffstar_sfh_singlegal,
)
from diffstar.diffstarpop import mc_diffstarpop_mgash as mcd
from diffstar.diffstarpop.kernels import diffstarpop_mgash as dk

from .. import core, gen
from .. import refmodel as R
from ..lib import MAH, check_sfh, eps
from .c10 import KINDS, params, sens
from .c11 import tol_frac

CASES = core.Registry()
RULE = (
    "Each execution draws one Monte Carlo population (or a galaxy) and checks the draw against re-draws, single-galaxy draws, "
    "the parameter-only entry points and the reference histories of its own returned parameters; classes are (oracle group, "
    "parameter kind, key kind, size, central/satellite, flag)."
)
ASSUMPTIONS = [
    "population keys are jax.random.split(key, ngals), as the property states",
    "draws from differently compiled programs agree to rounding, not bitwise; identical calls agree bitwise",
]
SIZES = (1, 3, 64)


def key_of(rng, kind=None):
    kind = kind or ("typed", "raw")[rng.integers(2)]
    s = int(rng.choice([0, 1, 2**31 - 1, rng.integers(2**31)]))
    return (jran.key(s) if kind == "typed" else jran.PRNGKey(s)), kind


def population(rng, n, t0=13.8):
    """logmp0 is drawn apart from logm0: the history follows the halo, the statistics follow logmp0"""
    h, _ = gen.halo(rng, n, t0=t0)
    h = gen.f32t(h)
    x = gen.f32(np.clip(h[0] + rng.normal(0, 0.4, n), 8.0, 16.0))
    up, lgmu, lgmh, gyr = gen.satellites(rng, n)
    return h, x, up, lgmu, lgmh, gyr


def leaves(tree):
    return [np.asarray(a) for a in jax.tree_util.tree_leaves(tree)]


def u_tols(mon, D, x, tp):
    """tolerance of a drawn unbounded parameter: rounding of mean and of a 6-sigma excursion"""
    (ms, q, sm, sq, sqq), (tm, tq, tsm, tsq, tsqq) = sens(mon, D, x, tp)
    sqall, tsqall = np.concatenate([sq, sqq], -1), np.concatenate([tsq, tsqq], -1)
    e = 60 * eps(mon)
    a = tm + 6 * tsm + e * (np.abs(ms) + 6 * sm)
    b = tq + 6 * tsqall + e * (np.abs(q) + 6 * sqall)
    return np.concatenate([a, np.full((len(x), 4), 50 * eps(mon))], -1), b


def flags_agree(mon, got, want, oracle, frac, **kw):
    """flags may differ only where rounding of the fraction could decide; at most one per comparison"""
    bad = np.atleast_1d(np.asarray(got) != np.asarray(want))
    mon.ok(bad.sum() <= (0 if mon.x64 else 1), oracle, n_bad_flags=int(bad.sum()), frac=np.atleast_1d(frac)[bad][:5], **kw)


def check_bounds(mon, p, oracle, **kw):
    P = [np.asarray(a, np.float64) for a in p]
    for name, v in zip(R.PNAMES, P):
        lo, hi = R.BOUNDS[name]
        e = 8 * eps(mon) * max(abs(lo), abs(hi))
        mon.ok((v >= lo - e) & (v <= hi + e), oracle + ":inside", name=name, got=v[:5] if v.ndim else v, **kw)
    mon.ok(P[7] >= P[6] - 30 * eps(mon), oracle + ":rejuvenation-above-drop", **kw)


def bounded_tol(mon, u, du):
    b = np.stack(R.bound_galaxy(list(np.moveaxis(u, -1, 0))), -1)
    tol = 60 * eps(mon) * (1 + np.abs(b))
    for s in (1, -1):
        for j in range(8):
            v = u.copy()
            v[..., j] += s * du[..., j]
            tol = tol + np.abs(np.stack(R.bound_galaxy(list(np.moveaxis(v, -1, 0))), -1) - b)
    return b, tol


@CASES(quick=18, thorough=240)
def draws(mon, rng):
    """re-draws, u/bounded/history entry points, unquenched main sequence, bounds"""
    kind = KINDS[mon.rep % len(KINDS)]
    D, P = params(rng, kind)
    n = SIZES[mon.rep % len(SIZES)]
    lgt0, fb, t0, lab = gen.cosmo(rng)
    t, _ = gen.grid(rng, 24, t0=t0, kind=("lin", "log")[rng.integers(2)])
    h, x, up, a1, a2, a3 = population(rng, n, t0)
    key, kk = key_of(rng)
    tp = h[4]
    pop = (x, up, a1, a2, a3)
    M = mah_of(h)
    A = mc_diffstar_sfh_galpop(P, M, *pop, key, t, lgt0=lgt0, fb=fb)
    B = mc_diffstar_sfh_galpop(P, M, *pop, key, t, lgt0=lgt0, fb=fb)
    for u, v in zip(leaves(A), leaves(B)):
        mon.same(u, v, "draws:repeatable")
    par = mc_diffstar_params_galpop(P, x, tp, up, a1, a2, a3, key)
    un = mcd.mc_diffstar_u_params_galpop(P, x, tp, up, a1, a2, a3, key)
    tms, tq = u_tols(mon, D, x, tp)
    U = [np.stack([np.asarray(c, np.float64) for c in un[i]], -1) for i in (0, 1)]
    mon.ok(np.isfinite(U[0]) & np.isfinite(U[1]), "draws:finite", kind=kind)
    mon.close(U[0][:, 4:], np.broadcast_to(R.UNQUENCHED_U, (n, 4)), 1e-6, "draws:main-sequence-unquenched-u")
    for i, (nm, tu) in enumerate((("diffstar_params_ms", tms), ("diffstar_params_q", tq))):
        want, tol = bounded_tol(mon, U[i], tu)
        g = np.stack([np.asarray(c, np.float64) for c in getattr(A, nm)], -1)
        mon.close(g, want, tol, "draws:history-draw-is-parameter-draw", field=nm, kind=kind)
        g2 = np.stack([np.asarray(c, np.float64) for c in par[i]], -1)
        mon.close(g2, want, tol, "draws:bounded-is-unbounded-mapped", field=nm, kind=kind)
        check_bounds(mon, getattr(A, nm), "draws:bounds", field=nm, kind=kind)
        # histories of the returned parameters
        P8 = tuple(np.asarray(c, np.float64) for c in getattr(A, nm))
        sf = (A.sfh_ms, A.sfh_q)[i]
        mon.ok(np.asarray(sf).shape == (n, len(t)), "draws:shape")
        check_sfh(mon, sf, P8, tuple(np.asarray(c) for c in h), t, lgt0, fb, "draws:history-of-returned-params", field=nm, cosmo=lab)
    ub = R.bound_galaxy([np.float64(0)] * 4 + [np.float64(v) for v in R.UNQUENCHED_U])
    got = np.stack([np.asarray(c, np.float64) for c in A.diffstar_params_ms[4:]], -1)
    mon.close(got, np.broadcast_to([float(v) for v in ub[4:]], (n, 4)), 60 * eps(mon), "draws:main-sequence-unquenched")
    (f, _, _), (tf, _, _) = tol_frac(mon, D, x, tp, np.asarray(up) == -1, a1, a2, a3)
    for src, fr, fl in (("sfh", A.frac_q, A.mc_is_q), ("params", par[2], par[3]), ("u", un[2], un[3])):
        mon.close(fr, f, tf, "draws:fraction", src=src, kind=kind)
        mon.ok(np.asarray(fl).dtype == bool and np.asarray(fl).shape == (n,), "draws:flag-type", src=src)
        flags_agree(mon, fl, A.mc_is_q, "draws:same-flags", f, src=src)
    for q in np.unique(np.asarray(A.mc_is_q)):
        for c in np.unique(np.asarray(up) == -1):
            mon.state("draws", kind, kk, n, "q" if q else "ms", "cen" if c else "sat")
    mon.sample(kind=kind, n=n, frac_q=np.asarray(A.frac_q)[:4], mc_is_q=np.asarray(A.mc_is_q)[:4])


def mah_of(h):
    return MAH(*[np.asarray(c) for c in h])


@CASES(quick=10, thorough=120)
def singles(mon, rng):
    """a population draw is the single-galaxy draws with the split keys"""
    kind = KINDS[mon.rep % len(KINDS)]
    D, P = params(rng, kind)
    n = (1, 5)[mon.rep % 2]
    t = gen.f32(np.linspace(0.3, 13.8, 9))
    h, x, up, a1, a2, a3 = population(rng, n)
    key, kk = key_of(rng)
    tp = h[4]
    kw = dict(lgt0=np.log10(13.8), fb=0.156)
    A = mc_diffstar_sfh_galpop(P, mah_of(h), x, up, a1, a2, a3, key, t, **kw)
    par = mc_diffstar_params_galpop(P, x, tp, up, a1, a2, a3, key)
    un = mcd.mc_diffstar_u_params_galpop(P, x, tp, up, a1, a2, a3, key)
    keys = jran.split(key, n)
    tms, tq = u_tols(mon, D, x, tp)
    (f, _, _), (tf, _, _) = tol_frac(mon, D, x, tp, np.asarray(up) == -1, a1, a2, a3)
    fl = {"sfh": [], "par": [], "u": []}
    idx = range(n) if n <= 5 else rng.choice(n, 6, replace=False)
    for i in idx:
        a = (x[i], up[i], a1[i], a2[i], a3[i])
        S = mc_diffstar_sfh_singlegal(P, mah_of([c[i] for c in h]), *a, keys[i], t, **kw)
        s = mc_diffstar_params_singlegal(P, x[i], tp[i], up[i], a1[i], a2[i], a3[i], keys[i])
        u = mcd.mc_diffstar_u_params_singlegal(P, x[i], tp[i], up[i], a1[i], a2[i], a3[i], keys[i])
        for j, tu in ((0, tms), (1, tq)):
            gu = np.array([float(c) for c in u[j]])
            wu = np.array([float(np.asarray(c)[i]) for c in un[j]])
            mon.close(gu, wu, tu[i], "singles:u-params", kind=kind, key=kk)
            wb, tb = bounded_tol(mon, wu, tu[i])
            mon.close([float(c) for c in s[j]], wb, tb, "singles:params", kind=kind)
            mon.close([float(c) for c in S[j]], wb, tb, "singles:history-params", kind=kind)
            P8 = tuple(float(c) for c in S[j])
            check_sfh(mon, S[2 + j], P8, tuple(float(c[i]) for c in h), t, kw["lgt0"], kw["fb"], "singles:history")
        mon.close([float(S.frac_q), float(s.frac_q), float(u[2])], np.full(3, f[i]), tf[i], "singles:fraction", kind=kind)
        fl["sfh"].append(bool(S.mc_is_q)), fl["par"].append(bool(s.mc_is_q)), fl["u"].append(bool(u[3]))
        mon.state("singles", kind, kk, bool(S.mc_is_q), up[i] == -1)
    idx = np.asarray(list(idx))
    flags_agree(mon, fl["sfh"], np.asarray(A.mc_is_q)[idx], "singles:flags", f[idx], src="sfh")
    flags_agree(mon, fl["par"], np.asarray(par[3])[idx], "singles:flags", f[idx], src="par")
    flags_agree(mon, fl["u"], np.asarray(un[3])[idx], "singles:flags", f[idx], src="u")


@CASES(quick=6, thorough=60)
def flags(mon, rng):
    """the flag obeys the fraction: certain, impossible, and monotone for a fixed key"""
    n = 256
    D, P = params(rng, ("uniform", "near", "mid")[mon.rep % 3])
    h, x, up, a1, a2, a3 = population(rng, n)
    key, kk = key_of(rng)
    out = []
    for f in (0.0, 0.2, 0.5, 0.8, 1.0):
        E = dict(D)
        for s in ("cen", "sat"):
            E[f"frac_quench_{s}_ylo_ylotpeak"] = E[f"frac_quench_{s}_ylo_yhitpeak"] = E[f"frac_quench_{s}_yhi"] = f
        if f == 0.0:
            for k in ("lgmu_lo_mh_lo", "lgmu_hi_mh_lo", "lgmu_lo_mh_hi", "lgmu_hi_mh_hi"):
                E[k] = 0.0
        o = mc_diffstar_params_galpop(type(P)(**E), x, h[4], up, a1, a2, a3, key)
        q, fr = np.asarray(o[3]), np.asarray(o[2], np.float64)
        mon.ok(~q[fr <= 0], "flags:impossible")
        mon.ok(q[fr >= 1], "flags:certain")
        mon.state("flags", f, kk, "some" if q.any() else "none")
        out.append((q, fr))
    for (q1, f1), (q2, f2) in zip(out, out[1:]):
        up_ = f2 >= f1
        mon.ok(q2[up_ & q1], "flags:monotone-in-fraction")
    mon.ok(~out[0][0], "flags:none-at-zero")
    mon.ok(out[-1][0], "flags:all-at-one")


@CASES(quick=6, thorough=60)
def keys_matter(mon, rng):
    """distinct keys give distinct draws; identical galaxies in one population differ"""
    D, P = params(rng, ("near", "mid", "ship")[mon.rep % 3])
    n = 200
    o = np.ones(n)
    args = (12.3 * o, 9.0 * o, np.where(rng.random(n) < 0.5, -1, 5), -1.0 * o, 14.0 * o, 2.0 * o)
    s = int(rng.integers(2**30))
    seen = []
    for k in range(4):
        out = mcd.mc_diffstar_u_params_galpop(P, *args, jran.key(s + k))
        seen.append(np.concatenate([np.stack(out[0][:4], -1), np.stack(out[1], -1)], -1))
    Z = np.concatenate(seen, 0)
    for j in range(Z.shape[1]):
        # float32 collisions of one value are possible; wholesale repetition is not
        mon.ok(len(np.unique(Z[:, j])) > 0.98 * len(Z), "keys_matter:distinct-draws", column=j, distinct=len(np.unique(Z[:, j])))
    mon.state("keys_matter", mon.rep % 3)


@CASES(quick=4, thorough=40)
def neighbours(mon, rng):
    """a galaxy's draw does not react to the others' inputs"""
    D, P = params(rng, KINDS[mon.rep % len(KINDS)])
    n = 24
    t = gen.f32(np.linspace(0.3, 13.8, 9))
    kw = dict(lgt0=np.log10(13.8), fb=0.156)
    h, x, up, a1, a2, a3 = population(rng, n)
    key, kk = key_of(rng)
    A = mc_diffstar_sfh_galpop(P, mah_of(h), x, up, a1, a2, a3, key, t, **kw)
    vic = rng.random(n) < 0.4
    vic[0] = True
    bad = float(rng.choice([np.nan, np.inf, -np.inf, 1e30]))
    x2 = np.where(vic, bad, x)
    h2 = tuple(np.where(vic, bad, c) for c in h)
    up2 = np.where(vic, -up, up)
    B = mc_diffstar_sfh_galpop(P, mah_of(h2), x2, up2, *(np.where(vic, bad, c) for c in (a1, a2, a3)), key, t, **kw)
    for u, v in zip(leaves(A), leaves(B)):
        mon.same(v[~vic], u[~vic], "neighbours:poison", bad=bad)
    mon.state("neighbours", bad)


@CASES(quick=4, thorough=40)
def central_kernel(mon, rng):
    """the central-only kernel draws what the general kernel draws for a central"""
    f = getattr(dk, "mc_diffstar_u_params_singlegal_kernel_cen", None)
    if f is None:
        return
    kind = KINDS[mon.rep % len(KINDS)]
    D, P = params(rng, kind)
    for _ in range(4):
        x, tp = gen.f32(rng.uniform(11, 15, 1)), gen.f32(rng.uniform(1, 13, 1))
        key, kk = key_of(rng, "typed")
        A = f(P, x[0], tp[0], key)
        B = mcd.mc_diffstar_u_params_singlegal(P, x[0], tp[0], -1, 0.0, 0.0, -100.0, key)
        tms, tq = u_tols(mon, D, x, tp)
        for j, tu in ((0, tms), (1, tq)):
            mon.close([float(c) for c in A[j]], [float(c) for c in B[j]], tu[0], "central_kernel:params", kind=kind)
        (fq, _, _), (tf, _, _) = tol_frac(mon, D, x, tp, np.array([True]), np.zeros(1), np.zeros(1), np.zeros(1) - 100)
        mon.close(float(A[2]), fq[0], tf[0], "central_kernel:fraction")
        flags_agree(mon, bool(A[3]), bool(B[3]), "central_kernel:flag", fq)
    mon.state("central_kernel", kind)


@CASES(quick=5, thorough=40)
def large(mon, rng):
    """populations of thousands of galaxies: each has its own key, through every entry point"""
    n = int((1500, 5001, 20_000, 70_001, 3333)[mon.rep % 5])
    D, P = params(rng, ("near", "ship", "mid")[mon.rep % 3])
    same = mon.rep % 2 == 1  # one galaxy repeated, or all different
    h, x, up, a1, a2, a3 = population(rng, n)
    if same:
        h, x, up, a1, a2, a3 = [tuple(np.full(n, c[0]) for c in h)] + [np.full(n, c[0]) for c in (x, up, a1, a2, a3)]
    key, kk = key_of(rng)
    tp = h[4]
    un = mcd.mc_diffstar_u_params_galpop(P, x, tp, up, a1, a2, a3, key)
    par = mc_diffstar_params_galpop(P, x, tp, up, a1, a2, a3, key)
    t = gen.f32(np.array([2.0, 13.8]))
    A = mc_diffstar_sfh_galpop(P, mah_of(h), x, up, a1, a2, a3, key, t, lgt0=np.log10(13.8), fb=0.156)
    U = [np.stack([np.asarray(c, np.float64) for c in un[i]], -1) for i in (0, 1)]
    keys = jran.split(key, n)
    one = jax.jit(jax.vmap(mcd.mc_diffstar_u_params_singlegal, in_axes=(None, 0, 0, 0, 0, 0, 0, 0)))(P, x, tp, up, a1, a2, a3, keys)
    sub = np.unique(np.concatenate([[0, n - 1, n // 2], rng.integers(0, n, 600)]))
    tms, tq = u_tols(mon, D, x, tp)
    for i, (nm, tu) in enumerate((("diffstar_params_ms", tms), ("diffstar_params_q", tq))):
        mon.close(U[i], np.stack([np.asarray(c, np.float64) for c in one[i]], -1), tu, "large:split-keys", n=n, field=nm)
        want, tol = bounded_tol(mon, U[i][sub], tu[sub])
        for src, pp in (("params", par[i]), ("history", getattr(A, nm))):
            g = np.stack([np.asarray(c, np.float64)[sub] for c in pp], -1)
            mon.close(g, want, tol, "large:entry-points-agree", n=n, field=nm, src=src)
        k = 4 if i == 0 else 8
        m = len(np.unique(U[i][:, :k], axis=0))
        mon.ok(m == n, "large:every-draw-its-own", n=n, distinct=m, field=nm)
    (f, _, _), _ = tol_frac(mon, D, x, tp, np.asarray(up) == -1, a1, a2, a3)
    ones = np.asarray(one[3])
    for src, fl in (("u", un[3]), ("params", par[3]), ("history", A.mc_is_q)):
        fl = np.asarray(fl)
        mon.ok(fl.shape == (n,), "large:shape", src=src)
        # float32: a uniform variate may fall within rounding of the fraction
        mon.ok((fl != ones).sum() <= (0 if mon.x64 else 3), "large:flags", src=src, n=n, n_bad_flags=int((fl != ones).sum()))
    mon.state("large", n, "same" if same else "different", kk)
