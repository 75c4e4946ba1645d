"""C13: Monte Carlo draws follow the advertised distribution.

Offline checker over recorded draws: every draw is standardised with the reference
mean and scatter of its own halo, and the resulting event log is tested against the
standard normal / advertised Bernoulli law at more than six sigma.
"""

import jax
import jax.numpy as jnp
import jax.random as jran
import numpy as np
from scipy import stats

from diffstar.diffstarpop import mc_diffstar_params_galpop, mc_diffstar_params_singlegal, mc_diffstar_sfh_galpop
from diffstar.diffstarpop import mc_diffstarpop_mgash as mcd

from .. import core, gen
from .. import refmodel as R
from ..lib import MAH, eps
from .c10 import params, sens
from .c11 import tol_frac

CASES = core.Registry()
RULE = (
    "Each execution records tens of thousands of draws of one population and standardises them with the reference law of each "
    "halo; classes are (entry point, parameter kind, key kind, subpopulation tested)."
)
ASSUMPTIONS = [
    "thresholds are 6.5 sigma (two-sided tail 8e-11) per statistic",
    "jax's generator itself is trusted to be a good source of uniform and normal variates",
]
SIG = 6.5
NAMES = tuple(f"ms_{k}" for k in R.PNAMES[:4]) + tuple(f"q_{k}" for k in R.PNAMES)
KINDS = ("near", "ship", "gentle", "mid")


def log_of_draws(mon, D, P, x, tp, up, a, un):
    """standardised draws (n, 12), allowed rounding per column, fraction, flag"""
    (ms, q, sm, sq, sqq), (tm, tq, tsm, tsq, tsqq) = sens(mon, D, x, tp)
    U = np.concatenate([np.stack([np.asarray(c, np.float64) for c in un[0][:4]], -1),
                        np.stack([np.asarray(c, np.float64) for c in un[1]], -1)], -1)
    mu, sd = np.concatenate([ms, q], -1), np.concatenate([sm, sq, sqq], -1)
    dm, ds = np.concatenate([tm, tq], -1), np.concatenate([tsm, tsq, tsqq], -1)
    f = R.frac_q(D, x, tp, np.asarray(up) == -1, *a)[0]
    return (U - mu) / sd, (dm / sd).mean(0) + 60 * eps(mon) * (np.abs(U) / sd).mean(0), (ds / sd).mean(0), f


def z_tests(mon, Z, bias, dscale, tag, **kw):
    n = len(Z)
    if n < 2000:
        return
    m, v = Z.mean(0), Z.var(0)
    mon.ok(np.isfinite(Z), tag + ":finite", **kw)
    mon.close(m, np.zeros(12), SIG / np.sqrt(n) + bias, tag + ":mean", names=NAMES, n=n, **kw)
    mon.close(v, np.ones(12), SIG * np.sqrt(2 / n) + 3 * dscale + 2 * bias, tag + ":variance", names=NAMES, n=n, **kw)
    mon.close((Z**3).mean(0), np.zeros(12), SIG * np.sqrt(15 / n) + 10 * bias + 10 * dscale, tag + ":skewness", n=n, **kw)
    mon.close((Z**4).mean(0), np.full(12, 3.0), 1.3 * SIG * np.sqrt(96 / n) + 20 * bias + 20 * dscale, tag + ":kurtosis", n=n, **kw)
    mon.ok(np.abs(Z) < 9.0, tag + ":no-outliers", **kw)
    C = np.corrcoef(Z.T)
    off = C[np.triu_indices(12, 1)]
    mon.close(off, np.zeros(len(off)), SIG / np.sqrt(n), tag + ":independent-parameters",
              pairs=[(NAMES[i], NAMES[j]) for i, j in zip(*np.triu_indices(12, 1))], n=n, **kw)
    C2 = np.corrcoef(np.clip(Z**2, 0, 25).T)[np.triu_indices(12, 1)]
    mon.close(C2, np.zeros(len(C2)), 1.3 * SIG / np.sqrt(n), tag + ":independent-magnitudes", n=n, **kw)
    # Kolmogorov distance: P(sqrt(n) D > 5) ~ 4e-22; 3.6 is ~1e-11
    for j in range(12):
        d = stats.kstest(Z[:, j], "norm").statistic
        mon.ok(d < 3.6 / np.sqrt(n) + bias[j] + dscale[j], tag + ":gaussian", column=NAMES[j], d=float(d), n=n, **kw)
    for k, lo, hi in ((3.0, 1, 1), (3.6, 1, 1), (2.5, 1, 0), (2.5, 0, 1)):  # tails
        c = (lo * (Z < -k) + hi * (Z > k)).sum(0)
        lam = n * stats.norm.sf(k) * (lo + hi)
        moved = 2 * n * stats.norm.pdf(k) * (bias + k * dscale)
        mon.close(c, np.full(12, lam), SIG * np.sqrt(lam) + SIG**2 / 3 + moved, tag + ":tails", beyond=k, sides=[lo, hi], names=NAMES, n=n, **kw)
    # order within the population: neighbouring galaxies share nothing
    for lag in (1, 2, n // 2):
        for src in (Z, Z**2 - 1):
            a, b = np.clip(src[lag:], -25, 25), np.clip(src[:-lag], -25, 25)
            M = (a.T @ b) / len(a)
            s = np.sqrt((a**2).mean(0)[:, None] * (b**2).mean(0)[None, :])
            mon.close(M / s, np.zeros((12, 12)), 1.3 * SIG / np.sqrt(len(a)) + 4 * np.add.outer(bias, bias) ** 2 + 3 * dscale.max(), tag + ":independent-galaxies", lag=lag, n=n, **kw)


def f_tests(mon, f, flag, Z, tag, **kw):
    n = len(f)
    if n < 2000:
        return
    var = f * (1 - f)
    r = flag - f
    rnd = 1e-5 if not mon.x64 else 1e-12

    def poissonian(sel, name, **k2):
        V = var[sel].sum()
        if sel.sum() >= 500:
            mon.close(r[sel].sum(), 0.0, SIG * np.sqrt(V + 4) + rnd * sel.sum(), tag + ":" + name, n=int(sel.sum()), **k2, **kw)

    poissonian(np.ones(n, bool), "flag-rate")
    edges = [0, 0.02, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.98, 1.0001]
    for lo, hi in zip(edges, edges[1:]):
        poissonian((f >= lo) & (f < hi), "flag-rate-at-fraction", lo=lo, hi=hi)
    for j in range(12):
        for k in range(6):
            lo, hi = stats.norm.ppf([k / 6, (k + 1) / 6])
            poissonian((Z[:, j] >= lo) & (Z[:, j] < hi), "flag-independent-of-parameters", column=NAMES[j], sextile=k)
    ok = var > 0.01
    g = np.where(ok, r / np.sqrt(np.where(ok, var, 1)), 0.0)
    for lag in (1, 2, n // 2):
        w = ok[lag:] & ok[:-lag]
        if w.sum() > 2000:
            mon.close((g[lag:][w] * g[:-lag][w]).mean(), 0.0, 1.5 * SIG / np.sqrt(w.sum()), tag + ":independent-flags", lag=lag, **kw)


def split(mon, D, x, tp, up, a, un, fr, fl, tag, **kw):
    Z, bias, ds, f = log_of_draws(mon, D, None, x, tp, up, a, un)
    fl = np.asarray(fl).astype(float)
    cen = np.asarray(up) == -1
    subs = {"all": np.ones(len(x), bool), "cen": cen, "sat": ~cen, "q": fl > 0, "ms": fl == 0, "cluster": x > np.median(x), "early": tp < np.median(tp)}
    for k, s in subs.items():
        if s.sum() < 2000:
            continue
        z_tests(mon, Z[s], bias + 0, ds, tag, sub=k, **kw)
        if k not in ("q", "ms"):
            f_tests(mon, f[s], fl[s], Z[s], tag, sub=k, **kw)
        mon.state(tag, k, *kw.values())
    tf = tol_frac(mon, D, x, tp, cen, *a)
    mon.close(fr, tf[0][0], tf[1][0], tag + ":returned-fraction", **kw)
    return Z, f


def pop(rng, n):
    up, lgmu, lgmh, gyr = gen.satellites(rng, n)
    return gen.f32(rng.uniform(10.5, 15.0, n)), gen.f32(rng.uniform(1.0, 13.8, n)), up, (lgmu, lgmh, gyr)


@CASES(quick=4, thorough=60)
def u_population(mon, rng):
    """population draws of unbounded parameters, one key"""
    kind = KINDS[mon.rep % 4]
    D, P = params(rng, kind)
    n = 60_000
    x, tp, up, a = pop(rng, n)
    s = int(rng.choice([0, 1, 2, rng.integers(2**31)]))
    kk = ("typed", "raw")[mon.rep % 2]
    key = jran.key(s) if kk == "typed" else jran.PRNGKey(s)
    ms, q, fr, fl = mcd.mc_diffstar_u_params_galpop(P, x, tp, up, *a, key)
    Z, f = split(mon, D, x, tp, up, a, (ms, q), fr, fl, "u_population", kind=kind, key=kk)
    mon.sample(kind=kind, n=n, z_mean=Z.mean(0), flag_rate=float(np.mean(fl)), expected=float(f.mean()))


@CASES(quick=2, thorough=30)
def bounded_population(mon, rng):
    """the bounded and history-producing entry points draw from the same law"""
    kind = KINDS[mon.rep % 2]
    D, P = params(rng, kind)
    n = 40_000
    x, tp, up, a = pop(rng, n)
    key = jran.key(int(rng.integers(2**31)))
    if mon.rep % 2:
        o = mc_diffstar_params_galpop(P, x, tp, up, *a, key)
        pm, pq, fr, fl = o[0], o[1], o[2], o[3]
    else:
        m = MAH(x, np.full(n, 0.05), np.full(n, 2.6), np.full(n, 0.13), tp)
        o = mc_diffstar_sfh_galpop(P, m, x, up, *a, key, np.array([1.0, 13.8]), lgt0=np.log10(13.8), fb=0.156)
        pm, pq, fr, fl = o.diffstar_params_ms, o.diffstar_params_q, o.frac_q, o.mc_is_q
    with np.errstate(all="ignore"):
        un = [R.unbound_galaxy([np.asarray(c, np.float64) for c in p]) for p in (pm, pq)]
    if mon.x64:
        split(mon, D, x, tp, up, a, un, fr, fl, "bounded_population", kind=kind, entry=mon.rep % 2)
        return
    # float32 saturates at the bounds: compare medians of the bounded values instead
    cen = np.asarray(up) == -1
    (ms, q, *_), _ = sens(mon, D, x, tp)
    mu = R.bound_galaxy([q[:, j] for j in range(8)])
    for j in range(7):
        below = np.mean(np.asarray(pq[j], np.float64) < mu[j])
        mon.close(below, 0.5, 0.5 * SIG / np.sqrt(n) + 2e-3, "bounded_population:median", column=R.PNAMES[j])
    f_tests(mon, R.frac_q(D, x, tp, cen, *a)[0], np.asarray(fl).astype(float), np.zeros((n, 12)) + 99, "bounded_population", kind=kind)
    mon.state("bounded_population", kind, "float32-medians")


@CASES(quick=4, thorough=40)
def across_keys(mon, rng):
    """one galaxy, many keys (consecutive seeds, split keys, folded keys, keys that differ in their first word only), single-galaxy calls"""
    D, P = params(rng, KINDS[mon.rep % 4])
    n = 30_000
    kk = ("first-word", "seeds", "split", "fold")[mon.rep % 4]
    x, tp = gen.f32(rng.uniform(11, 15, 1)), gen.f32(rng.uniform(1, 13.8, 1))
    for cen in (True, False):
        a = tuple(gen.f32(v) for v in ((np.zeros(1), np.zeros(1), np.zeros(1) - 100) if cen else (rng.uniform(-3, 0, 1), rng.uniform(12, 15, 1), rng.uniform(0, 8, 1))))
        s = int(rng.integers(2**30))
        if kk == "seeds":
            keys = jax.vmap(jran.key)(np.arange(s, s + n))
        elif kk == "first-word":
            keys = jnp.stack([jnp.arange(s, s + n), jnp.full(n, s % 1000)], -1).astype(jnp.uint32)
        elif kk == "split":
            keys = jran.split(jran.key(s), n)
        else:
            keys = jax.vmap(lambda i: jran.fold_in(jran.key(s), i))(np.arange(n))
        up = -1 if cen else 12345
        f = jax.jit(jax.vmap(lambda k: mcd.mc_diffstar_u_params_singlegal(P, x[0], tp[0], up, a[0][0], a[1][0], a[2][0], k)))
        ms, q, fr, fl = f(keys)
        X, T = np.full(n, x[0]), np.full(n, tp[0])
        A = tuple(np.full(n, v[0]) for v in a)
        split(mon, D, X, T, np.full(n, up), A, (ms, q), fr, fl, "across_keys", keys=kk)


@CASES(quick=2, thorough=20)
def small_populations(mon, rng):
    """many keys times small populations: galaxy i under one key and under the next are independent"""
    D, P = params(rng, KINDS[mon.rep % 4])
    m, K = 10, 6000
    x, tp, up, a = pop(rng, m)
    s = int(rng.integers(2**30))
    keys = jax.vmap(jran.key)(np.arange(s, s + K))
    g = jax.jit(jax.vmap(lambda k: mcd.mc_diffstar_u_params_galpop(P, x, tp, up, *a, k)))
    ms, q, fr, fl = g(keys)
    rep = lambda v: np.tile(v, K)  # noqa
    un = (tuple(np.asarray(c).ravel() for c in ms), tuple(np.asarray(c).ravel() for c in q))
    A = tuple(rep(v) for v in a)
    Z, f = split(mon, D, rep(x), rep(tp), rep(up), A, un, np.asarray(fr).ravel(), np.asarray(fl).ravel(), "small_populations", sizes=m)
    Zk = Z.reshape(K, m, 12)
    for i in range(m - 1):
        M = (Zk[:, i].T @ Zk[:, i + 1]) / K
        mon.close(M, np.zeros((12, 12)), SIG / np.sqrt(K) + 0.01, "small_populations:independent-between-galaxies", i=i)
    M = (Zk[1:, 0].T @ Zk[:-1, 0]) / (K - 1)
    mon.close(M, np.zeros((12, 12)), SIG / np.sqrt(K) + 0.01, "small_populations:independent-between-keys")


@CASES(quick=1, thorough=12)
def rare_flags(mon, rng):
    """fractions of a few per mille, and all but a few per mille: the ends of the unit interval are reached"""
    D, P = params(rng, "near")
    n = 400_000
    e = {"ylo": gen.f32(rng.choice([5e-4, 1e-3, 2e-3])), "yhi": gen.f32(1 - rng.choice([5e-4, 1e-3, 2e-3]))}
    new = {k: float(e[w]) for k in D if k.startswith("frac_quench_") for w in e if k.split("_")[3] == w}
    new.update({k: 5.0 for k in ("frac_quench_cen_k", "frac_quench_sat_k")})
    D.update(new)
    P = P._replace(**new)
    x = gen.f32(np.where(np.arange(n) % 2 == 0, rng.uniform(6.0, 10.0, n), rng.uniform(16.0, 20.0, n)))
    tp = gen.f32(rng.uniform(1.0, 13.8, n))
    up = np.full(n, -1)
    a = (np.zeros(n), np.zeros(n), np.full(n, -100.0))
    o = mc_diffstar_params_galpop(P, x, tp, up, *a, jran.key(int(rng.integers(2**31))))
    f, fl = np.asarray(o[2], np.float64), np.asarray(o[3]).astype(float)
    mon.close(f, R.frac_q(D, x, tp, np.ones(n, bool), *a)[0], 2e-6, "rare_flags:fraction")
    f = R.frac_q(D, x, tp, np.ones(n, bool), *a)[0]
    for nm, s, p in (("rarely", f < 0.02, f), ("nearly-always", f > 0.98, 1 - f)):
        got = (fl if nm == "rarely" else 1 - fl)[s].sum()
        lam = p[s].sum()
        mon.close(got, lam, SIG * np.sqrt(lam) + SIG**2 / 3 + 1e-6 * s.sum(), "rare_flags:" + nm, n=int(s.sum()))
        mon.state("rare_flags", nm, int(np.log2(lam + 1)))


@CASES(quick=1, thorough=8)
def single_calls(mon, rng):
    """plain single-galaxy calls, as a user loops over them"""
    D, P = params(rng, "near")
    n = 1200
    x, tp, up, a = pop(rng, n)
    s = int(rng.integers(2**30))
    zs, fl, fs = [], [], []
    for i in range(n):
        o = mc_diffstar_params_singlegal(P, x[i], tp[i], up[i], a[0][i], a[1][i], a[2][i], jran.key(s + i))
        zs.append([float(c) for c in o.diffstar_params_q[:4]])
        fl.append(bool(o.mc_is_q))
        fs.append(float(o.frac_q))
    (ms, q, *_), _ = sens(mon, D, x, tp)
    mu = np.stack(R.bound_galaxy([q[:, j] for j in range(8)]), -1)[:, :4]
    below = (np.array(zs) < mu).mean(0)
    mon.close(below, np.full(4, 0.5), 0.5 * SIG / np.sqrt(n) + 2e-3, "single_calls:median")
    f = R.frac_q(D, x, tp, np.asarray(up) == -1, *a)[0]
    mon.close(np.mean(fl) - f.mean(), 0.0, SIG * np.sqrt((f * (1 - f)).mean() / n + 1e-6), "single_calls:flag-rate")
    mon.state("single_calls", n)
