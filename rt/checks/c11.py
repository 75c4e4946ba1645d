"""C11: quenched fractions and the central/satellite switch."""

import jax
import jax.random as jran
import numpy as np

from diffstar.diffstarpop import mc_diffstar_params_galpop, mc_diffstar_params_singlegal, mc_diffstar_sfh_galpop, mc_diffstar_sfh_singlegal
from diffstar.diffstarpop.kernels import satquenchpop_model as sq
from diffstar.diffstarpop.kernels import sfh_pdf_mgash as sp
from diffstar.diffstarpop.kernels.diffstarpop_mgash import _diffstarpop_means_covs

from .. import core, gen
from .. import refmodel as R
from ..lib import MAH, eps
from .c10 import KINDS, batched, params

CASES = core.Registry()
RULE = (
    "Each execution evaluates quenched fractions for one generated population-parameter set over centrals and satellites; "
    "classes are (parameter kind, entry point, parent-identifier kind, infall regime)."
)
ASSUMPTIONS = ["satellite identifiers are representable in the array type handed over"]


def tol_frac(mon, D, x, tp, isc, lgmu, lgmh, gyr):
    e = 4 * eps(mon)
    base = R.frac_q(D, x, tp, isc, lgmu, lgmh, gyr)
    tol = np.full((3, len(x)), 60 * eps(mon))
    for s in (1, -1):
        D2 = {k: v * (1 + s * e) for k, v in D.items()}
        for a in ((D, x * (1 + s * e), tp, isc, lgmu, lgmh, gyr), (D, x, tp * (1 + s * e), isc, lgmu, lgmh, gyr),
                  (D, x, tp, isc, lgmu * (1 + s * e), lgmh, gyr), (D, x, tp, isc, lgmu, lgmh * (1 + s * e), gyr),
                  (D, x, tp, isc, lgmu, lgmh, gyr * (1 + s * e)), (D2, x, tp, isc, lgmu, lgmh, gyr)):
            tol += 3 * np.abs(np.stack(R.frac_q(*a)) - np.stack(base))
    return base, tol


UPIDS = ("int32", "int64", "float", "negative", "zero", "small", "bool-like", "jax")


def upids(rng, n, kind):
    """(upid array, is_central)"""
    c = rng.random(n) < 0.4
    c[0], c[-1] = True, n == 1
    if kind == "int32":
        u = np.where(c, -1, rng.integers(0, 2**31 - 1, n)).astype(np.int32)
    elif kind == "int64":
        u = np.where(c, -1, rng.integers(0, 2**31 - 1, n)).astype(np.int64)
    elif kind == "float":
        u = np.where(c, -1, rng.integers(1, 10**7, n)).astype(np.float64)
    elif kind == "negative":
        u = np.where(c, -1, -rng.integers(2, 10**6, n))
    elif kind == "zero":
        u = np.where(c, -1, 0)
    elif kind == "small":
        u = np.where(c, -1, rng.integers(-3, 4, n))
        c = u == -1
    elif kind == "bool-like":
        u = np.where(c, -1, 1)
    else:
        import jax.numpy as jnp

        u = jnp.where(jnp.array(c), -1, jnp.array(rng.integers(0, 1000, n)))
    return u, np.asarray(c)


@CASES(quick=16, thorough=200)
def mc_fraction(mon, rng):
    kind = KINDS[mon.rep % len(KINDS)]
    uk = UPIDS[mon.rep % len(UPIDS)]
    D, P = params(rng, kind)
    n = 64
    x, tp = gen.f32(rng.uniform(9, 15.8, n)), gen.f32(rng.uniform(0.1, 19, n))
    up, isc = upids(rng, n, uk)
    _, lgmu, lgmh, gyr = gen.satellites(rng, n)
    (f, fc, fs), (t, tc, ts) = tol_frac(mon, D, x, tp, isc, lgmu, lgmh, gyr)
    key = jran.key(int(rng.integers(2**31)))
    out = mc_diffstar_params_galpop(P, x, tp, up, lgmu, lgmh, gyr, key)
    got = np.asarray(out[2], np.float64)
    mon.close(got, f, t, "mc:model", kind=kind, upid=uk)
    mon.ok((got >= 0) & (got <= 1), "mc:probability", kind=kind)
    i = int(rng.integers(n))
    s = mc_diffstar_params_singlegal(P, x[i], tp[i], up[i], lgmu[i], lgmh[i], gyr[i], key)
    mon.close(float(s.frac_q), f[i], t[i], "mc:single", kind=kind, upid=uk)
    mc = batched(_diffstarpop_means_covs, 5)(P, x, tp, lgmu, lgmh, gyr)
    mon.close(mc[0], fc, tc, "kern:central", kind=kind)
    mon.close(mc[1], fs, ts, "kern:satellite", kind=kind)
    raw = batched(sp._sfh_pdf_scalar_kernel, 2)(P, x, tp)
    bare = R.frac_quench(D, "sat", x, tp)
    mon.close(raw[1], bare, ts, "kern:satellite-before-infall", kind=kind)
    mon.ok(np.asarray(mc[1], np.float64) >= np.asarray(raw[1], np.float64) - 4 * eps(mon), "kern:never-below-intrinsic")
    for c in (True, False):
        if (isc == c).any():
            mon.state("mc", kind, uk, "central" if c else "satellite")
    mon.sample(kind=kind, upid=np.asarray(up)[:5], frac_q=got[:5])


@CASES(quick=10, thorough=150)
def boost(mon, rng):
    """satellite boost: model, bounds, monotone in time since infall, vanishing long before infall"""
    D, P = params(rng, KINDS[mon.rep % len(KINDS)])
    S = sq.SatQuenchPopParams(**{k: D[k] for k in R.SAT_BOUNDS})
    n = 50
    lgmu = gen.f32(rng.uniform(-6, 0.5, n))
    lgmh = gen.f32(rng.uniform(10, 16, n))
    qc = gen.f32(rng.choice([0.0, 1.0, 0.5, 0.1, 0.9], n))
    g = gen.f32(np.concatenate([[-100.0, -30.0], np.linspace(-8, 14, 60), [100.0]]))
    G, MU = np.meshgrid(g, lgmu)
    _, H = np.meshgrid(g, lgmh)
    _, Q = np.meshgrid(g, qc)
    b = np.asarray(sq.predict_sat_frac_delta_qprob(S, MU, H, G), np.float64)
    w = R.sat_boost(D, MU, H, G)
    tol = 60 * eps(mon) + 0 * w
    e = 4 * eps(mon)
    for s in (1, -1):
        tol += 3 * np.abs(R.sat_boost(D, MU * (1 + s * e), H, G) - w) + 3 * np.abs(R.sat_boost(D, MU, H * (1 + s * e), G) - w)
        tol += 3 * np.abs(R.sat_boost(D, MU, H, G * (1 + s * e)) - w)
        tol += 3 * np.abs(R.sat_boost({k: v * (1 + s * e) for k, v in D.items()}, MU, H, G) - w)
    mon.close(b, w, tol, "boost:model")
    p = np.asarray(sq.get_qprob_sat(S, MU, H, G, Q), np.float64)
    mon.close(p, Q + w * (1 - Q), tol + 4 * eps(mon), "boost:probability-model")
    mon.ok((p >= -4 * eps(mon)) & (p <= 1 + 4 * eps(mon)), "boost:probability")
    mon.ok(p >= Q - 4 * eps(mon), "boost:never-below-central")
    mon.ok(np.diff(p, axis=1) >= -4 * eps(mon), "boost:never-decreases")
    mon.close(p[:, 0], Q[:, 0], 4 * eps(mon), "boost:nothing-long-before-infall")
    # scalar call
    i, j = int(rng.integers(n)), int(rng.integers(len(g)))
    v = sq.get_qprob_sat(S, float(MU[i, j]), float(H[i, j]), float(G[i, j]), float(Q[i, j]))
    mon.close(float(v), p[i, j], 10 * eps(mon), "boost:scalar")
    mon.state("boost", mon.rep % len(KINDS), "saturated" if (p[:, -1] > 0.99).any() else "partial")


@CASES(quick=6, thorough=60)
def centrals_blind(mon, rng):
    """centrals ignore infall inputs, even garbage; satellites' main draw does too"""
    D, P = params(rng, KINDS[mon.rep % len(KINDS)])
    n = 32
    t = np.linspace(0.2, 13.8, 12)
    x, tp = gen.f32(rng.uniform(11, 15, n)), gen.f32(rng.uniform(1, 13.8, n))
    m = MAH(x, np.full(n, 0.05), np.full(n, 2.6), np.full(n, 0.13), tp)
    up, isc = upids(rng, n, UPIDS[mon.rep % len(UPIDS)])
    key = jran.key(int(rng.integers(2**31)))
    _, a1, a2, a3 = gen.satellites(rng, n)
    bad = rng.choice([np.nan, 1e30, -1e30, 0.0], n)
    b1, b2, b3 = (np.where(isc, bad, a) for a in (a1, a2, a3))
    kw = dict(lgt0=np.log10(13.8), fb=0.156)
    A = mc_diffstar_sfh_galpop(P, m, x, up, a1, a2, a3, key, t, **kw)
    B = mc_diffstar_sfh_galpop(P, m, x, up, b1, b2, b3, key, t, **kw)
    for u, v in zip(jax.tree_util.tree_leaves(A), jax.tree_util.tree_leaves(B)):
        mon.same(u, v, "centrals_blind:pop")
    i = int(np.flatnonzero(isc)[0])
    mi = MAH(*[float(np.asarray(q)[i]) for q in m])
    one = [mc_diffstar_sfh_singlegal(P, mi, x[i], up[i], q1[i], q2[i], q3[i], key, t, **kw) for q1, q2, q3 in ((a1, a2, a3), (b1, b2, b3))]
    for u, v in zip(*map(jax.tree_util.tree_leaves, one)):
        mon.same(u, v, "centrals_blind:single")
    # only the fraction and the flag of a satellite react to the infall inputs
    c3 = gen.f32(a3 + 5.0)
    C = mc_diffstar_sfh_galpop(P, m, x, up, a1, a2, c3, key, t, **kw)
    for nm in ("diffstar_params_ms", "diffstar_params_q", "sfh_ms", "sfh_q"):
        for u, v in zip(jax.tree_util.tree_leaves(getattr(A, nm)), jax.tree_util.tree_leaves(getattr(C, nm))):
            mon.same(u, v, "centrals_blind:histories", field=nm)
    fa, fc = np.asarray(A.frac_q, np.float64), np.asarray(C.frac_q, np.float64)
    mon.same(fa[isc], fc[isc], "centrals_blind:fraction")
    mon.ok(fc[~isc] >= fa[~isc] - 4 * eps(mon), "centrals_blind:satellite-monotone")
    mon.state("centrals_blind", UPIDS[mon.rep % len(UPIDS)])


@CASES(quick=8, thorough=80)
def switch(mon, rng):
    """the parent identifier alone decides: two identifier conventions give identical draws"""
    D, P = params(rng, KINDS[mon.rep % len(KINDS)])
    n = 32
    x, tp = gen.f32(rng.uniform(11, 15, n)), gen.f32(rng.uniform(1, 13.8, n))
    k1, k2 = rng.choice(UPIDS[:6], 2, replace=False)
    st = int(rng.integers(2**31))
    u1, c1 = upids(np.random.default_rng(st), n, k1)
    u2 = np.where(c1, -1, rng.choice([0, 1, 5, -2, -7, 2**31 - 2, 123456789], n))
    _, a1, a2, a3 = gen.satellites(rng, n)
    key = jran.key(int(rng.integers(2**31)))
    A = mc_diffstar_params_galpop(P, x, tp, u1, a1, a2, a3, key)
    B = mc_diffstar_params_galpop(P, x, tp, u2, a1, a2, a3, key)
    for u, v in zip(jax.tree_util.tree_leaves(A), jax.tree_util.tree_leaves(B)):
        mon.close(u, np.asarray(v, np.float64), 20 * eps(mon) * (1 + np.abs(np.asarray(v, np.float64))), "switch:identifier-convention", k=k1)
    # lgmu=0, lgmhost=0, gyr=-100 (the documented values for centrals) do not make a central
    z = np.zeros(n)
    C = mc_diffstar_params_galpop(P, x, tp, np.full(n, 17), z, z, z - 100.0, key)
    want, tol = tol_frac(mon, D, x, tp, np.zeros(n, bool), z, z, z - 100.0)
    mon.close(C[2], want[0], tol[0], "switch:satellite-with-central-like-inputs")
    E = mc_diffstar_params_galpop(P, x, tp, np.full(n, -1), a1, a2, a3, key)
    want, tol = tol_frac(mon, D, x, tp, np.ones(n, bool), a1, a2, a3)
    mon.close(E[2], want[0], tol[0], "switch:central-with-satellite-inputs")
    mon.state("switch", k1)
