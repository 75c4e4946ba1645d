"""C14: every prediction is differentiable with correct finite gradients."""

import jax
import jax.numpy as jnp
import jax.random as jran
import numpy as np

from diffstar import calc_mgas_galpop, calc_mgas_singlegal, calc_sfh_galpop, calc_sfh_singlegal
from diffstar.defaults import DiffstarParams, DiffstarUParams, get_bounded_diffstar_params, get_unbounded_diffstar_params
from diffstar.diffstarpop import (
    DiffstarPopParams,
    DiffstarPopUParams,
    get_bounded_diffstarpop_params,
    get_unbounded_diffstarpop_params,
    mc_diffstar_sfh_galpop,
    mc_diffstar_sfh_singlegal,
)
from diffstar.diffstarpop.kernels.diffstarpop_mgash import _diffstarpop_means_covs
from diffstar.fitting_helpers import diffstar_fitting_helpers as fh

from .. import core, gen
from .. import refmodel as R
from ..gradcheck import Diff, ref_fd
from ..lib import MAH, eps, ref_lgsfr
from .c10 import KINDS, params

CASES = core.Registry()
RULE = (
    "Each execution differentiates one public prediction at one generated point in forward and reverse mode and compares every "
    "entry with extrapolated finite differences (64-bit: of the code itself; 32-bit: of the reference model); classes are "
    "(function, stratum) and, for every parameter, whether its slope was resolved above the finite-difference error."
)
ASSUMPTIONS = [
    "slopes are compared where two finite-difference steps agree; at kinks and inside sharp transitions the tolerance widens to the observed disagreement",
    "32-bit gradients are compared with the reference slope within its sensitivity to float32 rounding of the inputs",
]
HN = ("logm0", "logtc", "early", "late", "tpeak", "lgt0", "fb")
NT = 12
GNAMES = R.PNAMES + HN


def _sfh(x, t):
    s = calc_sfh_singlegal(DiffstarParams(*x[:8]), MAH(*x[8:13]), t, lgt0=x[13], fb=x[14], return_smh=True)
    return jnp.concatenate([jnp.log10(s[0]), jnp.log10(s[1])])


def _sfh_pop(x, t):
    two = lambda v: jnp.stack([v, v * 1.01])  # noqa
    s = calc_sfh_galpop(DiffstarParams(*[two(v) for v in x[:8]]), MAH(*[two(v) for v in x[8:13]]), t, lgt0=x[13], fb=x[14], return_smh=True)
    return jnp.concatenate([jnp.log10(s[0]).ravel(), jnp.log10(s[1]).ravel()])


def _gas(x, t):
    g = calc_mgas_singlegal(DiffstarParams(*x[:8]), MAH(*x[8:13]), t, lgt0=x[13], fb=x[14])
    n = 10 ** (x[8] - 2)
    return jnp.concatenate([g.mgash / n, g.dmgash * 1e9 / n, jnp.log10(g.sfh), jnp.log10(g.smh)])


def _gas_pop(x, t):
    g = calc_mgas_galpop(DiffstarParams(*[v[None] for v in x[:8]]), MAH(*[v[None] for v in x[8:13]]), t, lgt0=x[13], fb=x[14])
    n = 10 ** (x[8] - 2)
    return jnp.concatenate([g.mgash[0] / n, g.dmgash[0] * 1e9 / n, jnp.log10(g.sfh[0]), jnp.log10(g.smh[0])])


def gas_noise(mon, t, logm):
    """rounding of the budget: rates are differences of large masses divided by short bins"""
    dt = np.minimum(R.dt_bins(t), np.concatenate([np.diff(t)[:1], np.diff(t)]))
    n = 10.0 ** (logm - 2)

    def vnoise(v):
        A = np.nanmax(np.abs(v[:NT])) + 10.0 ** np.nanmax(v[3 * NT :]) / n
        return np.concatenate([np.full(NT, A), A / dt, np.zeros(2 * NT)])

    def jnoise(v, J):
        A = np.abs(J[:NT]).max(axis=0) + np.abs(J[3 * NT :]).max(axis=0) * 2.303 * 10.0 ** np.nanmax(v[3 * NT :]) / n
        A = A + np.abs(v[:NT]).max() + 10.0 ** np.nanmax(v[3 * NT :]) / n
        e = 200 * eps(mon)
        return e * np.concatenate([np.tile(A, (NT, 1)), A[None] / dt[:, None], np.zeros((2 * NT, J.shape[1]))])

    return dict(vnoise=vnoise, jnoise=jnoise)


def _bound(u):
    return jnp.stack(get_bounded_diffstar_params(DiffstarUParams(*u)))


def _unbound(p):
    return jnp.stack(get_unbounded_diffstar_params(DiffstarParams(*p)))


def _pbound(u):
    return jnp.stack(get_bounded_diffstarpop_params(DiffstarPopUParams(*u)))


def _punbound(p):
    return jnp.stack(get_unbounded_diffstarpop_params(DiffstarPopParams(*p)))


IU4 = np.tril_indices(4)


def _means(z):
    """z: population params, then logmp0, tpeak, lgmu, lgmhost, gyr"""
    P = DiffstarPopParams(*z[:-5])
    fc, fs, ms, q, c1, c2, c3 = _diffstarpop_means_covs(P, *z[-5:])
    return jnp.concatenate([jnp.stack([fc, fs]), jnp.stack(list(ms)), jnp.stack(list(q)), jnp.diag(c1), jnp.diag(c2), jnp.diag(c3)])


def _mc(u, h, logmp0, upid, a1, a2, a3, key, t):
    P = get_bounded_diffstarpop_params(DiffstarPopUParams(*u))
    o = mc_diffstar_sfh_galpop(P, MAH(*h), logmp0, upid, a1, a2, a3, key, t, lgt0=jnp.log10(13.8), fb=0.156)
    return jnp.concatenate([jnp.log10(o.sfh_ms).ravel(), jnp.log10(o.sfh_q).ravel(), o.frac_q])


def _mc1(u, h, logmp0, upid, a1, a2, a3, key, t):
    P = get_bounded_diffstarpop_params(DiffstarPopUParams(*u))
    o = mc_diffstar_sfh_singlegal(P, MAH(*h), logmp0, upid, a1, a2, a3, key, t, lgt0=jnp.log10(13.8), fb=0.156)
    return jnp.concatenate([jnp.log10(o.sfh_ms), jnp.log10(o.sfh_q), o.frac_q[None]])


_cache = {}


def D(name):
    if name not in _cache:
        f, nrest, rev = dict(
            sfh=(_sfh, 1, True), sfh_pop=(_sfh_pop, 1, True), gas=(_gas, 1, True), gas_pop=(_gas_pop, 1, True),
            bound=(_bound, 0, True), unbound=(_unbound, 0, True), pbound=(_pbound, 0, True), punbound=(_punbound, 0, True),
            means=(_means, 0, True), mc=(_mc, 8, True), mc1=(_mc1, 8, True),
        )[name]
        _cache[name] = Diff(f, nrest, rev)
    return _cache[name]


def point(rng, strat=None):
    p, gs = gen.galaxy(rng, 1, strat)
    h, hs = gen.halo(rng, 1)
    lgt0, fb, t0, _ = gen.cosmo(rng)
    x = np.array([float(v[0]) for v in p] + [float(v[0]) for v in h] + [lgt0, fb])
    # rejuvenation strictly inside its drop-dependent range is not needed here: bounded values go straight in
    t = np.sort(rng.uniform(0.3, t0, NT))
    tp = x[12]
    t = t + np.where(np.abs(t - tp) < 0.01, 0.02, 0.0)  # the accretion rate jumps at the peak
    return x, np.sort(t), gs[0], hs[0]


H15 = np.array([1e-5] * 8 + [1e-5] * 4 + [1e-5, 1e-6, 1e-6])


@CASES(quick=40, thorough=600, modes=("x64",))
def histories(mon, rng):
    """SFH, stellar mass and gas: slope in all 15 inputs"""
    x, t, gs, hs = point(rng, (gen.GAL_STRATA[mon.rep % len(gen.GAL_STRATA)],))
    name = ("sfh", "gas", "sfh", "gas", "sfh_pop", "gas_pop")[mon.rep % 6]
    h = H15.copy()
    if gs == "sharp":
        h[4:8] = 1e-7
    v, J, live = D(name).check(mon, x, (jnp.asarray(t),), h, name, names=GNAMES, strat=gs, x=x, **(gas_noise(mon, t, x[8]) if "gas" in name else {}))
    mon.state(name, gs, hs)
    mon.sample(fn=name, strat=gs, resolved=int(live.sum()))


@CASES(quick=30, thorough=400, modes=("f32",))
def histories32(mon, rng):
    """float32 gradients are finite everywhere and follow the reference slope"""
    x, t, gs, hs = point(rng, (gen.GAL_STRATA[mon.rep % len(gen.GAL_STRATA)],))
    x, t = gen.f32(x), gen.f32(t)
    v, J = D("sfh").ad(mon, x, (jnp.asarray(t),), "sfh32", strat=gs, x=x)
    f = lambda z: ref_lgsfr(tuple(z[:8]), tuple(z[8:13]), t, z[13], z[14])  # noqa
    h = H15 * 0.1
    W, E = ref_fd(f, x, h)
    S = np.zeros_like(W)
    r2 = np.random.default_rng(5)
    for _ in range(3):  # sensitivity of the slope to the rounding of inputs
        W2, _ = ref_fd(lambda z: ref_lgsfr(tuple(z[:8]), tuple(z[8:13]), t * (1 + 3e-7 * r2.choice([-1, 1])), z[13], z[14]),
                       x * (1 + 3e-7 * r2.choice([-1, 1], 15)), h)
        S = np.maximum(S, np.abs(W2 - W))
    tol = 5e-4 * (np.abs(W) + 0.2) + 4 * E + 10 * S
    mon.close(J[:NT], W, tol, "sfh32:slope", strat=gs)
    mon.state("sfh32", gs, hs)


@CASES(quick=30, thorough=300)
def hostile(mon, rng):
    """finite gradients at the awkward points: peak time, quenching time, end of event, floor, extremes"""
    x, t, gs, hs = point(rng)
    w = 10 ** x[5]
    sp = [x[12], 10 ** x[4], 10 ** (x[4] - w / 2), 10 ** (x[4] + w / 2), 10 ** x[13]]
    sp = [min(max(v, 0.06), 30.0) for v in sp]
    t = np.sort(np.concatenate([sp, rng.uniform(0.05, 14, NT - 5)]))
    t = t + 1e-4 * np.arange(NT)
    k = mon.rep % 5
    if k == 0:
        t[:5] = (sp + t[:0].tolist())[:5]
        t = np.sort(t) + 1e-5 * np.arange(NT)
        t[int(np.argmin(np.abs(t - x[12])))] = x[12]
        t = np.sort(t)
    elif k == 1:
        x[8] = rng.uniform(5, 8)  # far below the floor
    elif k == 2:
        x[8], x[0] = rng.uniform(15.5, 17), 9.1
    elif k == 3:
        x[6] = x[7] = 0.0
    else:
        x[12] = float(t[int(rng.integers(NT))])
    x = x if mon.x64 else gen.f32(x)
    tt = jnp.asarray(t)
    for name in ("sfh", "gas"):
        jn = gas_noise(mon, t, x[8])["jnoise"] if name == "gas" else None
        v, J = D(name).ad(mon, x, (tt,), "hostile:" + name, jnoise=jn, k=k, x=x, t=t)
        mon.ok(np.isfinite(v), "hostile:value-finite", name=name, k=k)
    mon.state("hostile", k, gs, hs)


@CASES(quick=24, thorough=300)
def mappings(mon, rng):
    """parameter mappings: slope, sign, and finiteness for extreme unbounded values"""
    k = mon.rep % 4
    u = rng.normal(0, (1, 3, 10, 100)[k], 8) + np.array([11.2, -10, 2.5, -2.5, 1, -1.5, -1.5, -1.5])
    if mon.x64 and k < 2:
        v, J, _ = D("bound").check(mon, u, (), 1e-4, "bound", names=R.PNAMES)
        p, _ = gen.galaxy(rng, 1, ("uniform",))
        p = np.array([float(q[0]) for q in p])
        p[7] = 0.5 * p[6]
        D("unbound").check(mon, p, (), 1e-6, "unbound", names=R.PNAMES)
        mon.ok(np.diag(J) > 0, "bound:increasing")
    else:
        D("bound").ad(mon, u, (), "bound", k=k, u=u)
    n = len(R.ALL_POP_BOUNDS)
    lo, hi = np.array(list(R.ALL_POP_BOUNDS.values())).T
    up = 0.5 * (lo + hi) + rng.normal(0, (5, 20, 200, 1e4)[k], n)
    if mon.x64 and k < 2:
        v, J, _ = D("pbound").check(mon, up, (), 1e-3, "pbound", names=tuple(R.ALL_POP_BOUNDS))
        mon.ok(np.diag(J) > 0, "pbound:increasing")
        off = J - np.diag(np.diag(J))
        mon.ok(off == 0, "pbound:independent")
        D("punbound").check(mon, lo + (hi - lo) * rng.uniform(0.05, 0.95, n), (), 1e-5 * (hi - lo), "punbound", names=tuple(R.ALL_POP_BOUNDS))
    else:
        D("pbound").ad(mon, up, (), "pbound", k=k)
    mon.state("mappings", k)


def popvec(rng, kind):
    d, _ = params(rng, kind)
    up, a1, a2, a3 = gen.satellites(rng, 1)
    y = [rng.uniform(10.5, 15), rng.uniform(1, 14), rng.uniform(-4, 0), rng.uniform(11, 15.5), rng.uniform(-2, 9)]
    return np.array([d[k] for k in R.ALL_POP_BOUNDS] + y), d


PN = tuple(R.ALL_POP_BOUNDS) + ("logmp0", "tpeak", "lgmu", "lgmhost", "gyr")
PH = np.array([1e-6 * (hi - lo) for lo, hi in R.ALL_POP_BOUNDS.values()] + [1e-6, 1e-5, 1e-5, 1e-5, 1e-5])


def ref_means(z):
    d = dict(zip(R.ALL_POP_BOUNDS, z[:-5]))
    x, tp, a1, a2, a3 = [np.array([v]) for v in z[-5:]]
    ms, q = R.pop_means(d, x, tp)
    s = [v**2 for v in R.pop_stds(d, x)]
    _, c, f = R.frac_q(d, x, tp, np.array([True]), a1, a2, a3)
    return np.concatenate([c, f, ms[0], q[0], s[0][0], s[1][0], s[2][0]])


@CASES(quick=14, thorough=200)
def population(mon, rng):
    """means, scatters and quenched fractions: slope in every population parameter and input"""
    kind = KINDS[mon.rep % len(KINDS)]
    z, d = popvec(rng, kind)
    z = z if mon.x64 else gen.f32(z)
    if mon.x64:
        D("means").check(mon, z, (), PH, "population", names=PN, kind=kind)
    v, J = D("means").ad(mon, z, (), "population", kind=kind)
    W, E = ref_fd(ref_means, z, PH)
    S = np.zeros_like(W)
    r2 = np.random.default_rng(5)
    e = 4 * eps(mon)
    for _ in range(2):
        W2, _ = ref_fd(ref_means, z * (1 + e * r2.choice([-1, 1], len(z))), PH)
        S = np.maximum(S, np.abs(W2 - W))
    tol = (1e-5 if mon.x64 else 2e-3) * (np.abs(W) + 1e-2) + 10 * E + 10 * S
    mon.close(J, W, tol, "population:reference-slope", kind=kind)
    mon.state("population", kind)


@CASES(quick=5, thorough=60)
def montecarlo(mon, rng):
    """Monte Carlo histories at a fixed key: slope in every population parameter"""
    kind = ("near", "ship", "mid", "gentle", "uniform")[mon.rep % 5]
    d, P = params(rng, kind)
    lo, hi = np.array(list(R.ALL_POP_BOUNDS.values())).T
    p = np.array([d[k] for k in R.ALL_POP_BOUNDS])
    u = R.unbound_pop(p, lo, hi)
    n = 3
    h, _ = gen.halo(rng, n)
    up = np.array([-1, 5, 7])
    a = (np.array([0.0, -1.5, -0.5]), np.array([0.0, 13.5, 14.5]), np.array([-100.0, 3.0, 1.0]))
    t = np.sort(rng.uniform(1, 13.5, 5))
    key = jran.key(int(rng.integers(2**31)))
    x = rng.uniform(11, 14.5, n)
    rest = (jnp.asarray(np.stack(h)), jnp.asarray(x), jnp.asarray(up), *[jnp.asarray(v) for v in a], key, jnp.asarray(t))
    u = u if mon.x64 else gen.f32(u)
    if mon.x64:
        _, J, live = D("mc").check(mon, u, rest, 1e-4, "mc", names=tuple(R.ALL_POP_BOUNDS), kind=kind)
        mon.sample(kind=kind, resolved=int(live.sum()))
    else:
        D("mc").ad(mon, u, rest, "mc", kind=kind)
    r1 = (jnp.asarray([float(v[1]) for v in h]), float(x[1]), int(up[1]), *[float(v[1]) for v in a], key, jnp.asarray(t))
    if mon.x64:
        D("mc1").check(mon, u, r1, 1e-4, "mc-single", names=tuple(R.ALL_POP_BOUNDS), kind=kind)
    else:
        D("mc1").ad(mon, u, r1, "mc-single", kind=kind)
    mon.state("montecarlo", kind)


@CASES(quick=16, thorough=200)
def fit_loss(mon, rng):
    """the gradient handed to the optimiser is the slope of the loss it minimises"""
    nt = 40
    t = np.linspace(0.5, 13.8, nt)
    p, gs = gen.galaxy(rng, 1)
    h, hs = gen.halo(rng, 1, strata=("default", "uniform", "cluster"))
    p, h = [float(v[0]) for v in p], [float(v[0]) for v in h]
    lgt0, fb = float(np.log10(13.8)), 0.156
    sfh = R.sfr(p, h, t, lgt0, fb) * 10 ** rng.normal(0, 0.1, nt)
    floor, delay = (1e-12, 1e-11)[mon.rep % 2], (1.0, 0.5)[mon.rep % 2]
    (u0, err), data = fh.get_loss_data_default(t, sfh, MAH(*h), fstar_tdelay=delay, ssfrh_floor=floor, lgt0=lgt0, fb=fb)
    f = jax.jit(jax.vmap(lambda u: fh.loss_default_clipssfrh(u, data)))
    for j in range(3):
        u = np.asarray(u0, np.float64) + np.asarray(err) * rng.normal(0, (0.3, 1, 3)[j], 8)
        u = u if mon.x64 else gen.f32(u)
        L = float(fh.loss_default_clipssfrh(u, data))
        g = fh.loss_grad_default_clipssfrh_np(u, data)
        mon.ok(isinstance(g, np.ndarray) and g.shape == (8,), "fit_loss:array")
        if np.isfinite(L):
            mon.ok(np.isfinite(g), "fit_loss:finite", u=u, gal=gs, halo=hs)
        if mon.x64:
            hh = 1e-5
            E = np.eye(8) * hh
            V = np.asarray(f(jnp.asarray(np.concatenate([u + E, u - E, u + E / 2, u - E / 2]))))
            d1, d2 = (V[:8] - V[8:16]) / (2 * hh), (V[16:24] - V[24:]) / hh
            kink = np.abs(V[16:24] + V[24:] - 2 * L) / (hh / 2)
            w = (4 * d2 - d1) / 3
            tol = 3 * np.abs(d1 - d2) + np.where(kink > 0.1 * np.abs(w), kink, 0) + 1e-6 * np.abs(w) + 1e-13 * abs(L) / hh + 1e-9
            mon.close(g, w, tol, "fit_loss:slope", u=u, gal=gs)
            for k in range(8):
                if tol[k] < 0.05 * abs(w[k]):
                    mon.state("slope-resolved", "fit_loss", R.PNAMES[k])
    mon.state("fit_loss", gs[0], hs[0], floor)
