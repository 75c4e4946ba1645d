"""C09: population-parameter mapping and published calibrations."""

import numpy as np

from diffstar.diffstarpop import (
    DEFAULT_DIFFSTARPOP_PARAMS,
    DEFAULT_DIFFSTARPOP_U_PARAMS,
    DIFFSTARPOP_PBOUNDS,
    SIMULATION_FIT_PARAMS,
    DiffstarPopParams,
    DiffstarPopUParams,
    get_bounded_diffstarpop_params,
    get_unbounded_diffstarpop_params,
)
from diffstar.diffstarpop.kernels import satquenchpop_model as sq
from diffstar.diffstarpop.kernels import sfh_pdf_mgash as sp

from .. import core, gen
from .. import refmodel as R
from ..lib import eps, inv_sigmoid_tol

CASES = core.Registry()
RULE = (
    "Each execution maps population-parameter vectors (random, extreme, one coordinate swept, or a shipped calibration) "
    "and compares each of the 97 or so coordinates by name; a class is (case, parameter or calibration, reach)."
)
ASSUMPTIONS = ["round trips are asserted where the sigmoid is not saturated in the arithmetic used"]
NAMES = list(DEFAULT_DIFFSTARPOP_PARAMS._fields)
LO = np.array([R.ALL_POP_BOUNDS.get(k, (np.nan, np.nan))[0] for k in NAMES])
HI = np.array([R.ALL_POP_BOUNDS.get(k, (np.nan, np.nan))[1] for k in NAMES])
MAG = np.maximum(np.abs(LO), np.abs(HI))
W = HI - LO


def vec(p):
    return np.array([float(x) for x in p])


def tolb(mon):
    return 12 * eps(mon) * MAG


@CASES(quick=1, thorough=2)
def published(mon, rng):
    mon.ok(set(NAMES) == set(R.ALL_POP_BOUNDS), "published:names", diff=sorted(set(NAMES) ^ set(R.ALL_POP_BOUNDS)))
    mon.ok(DIFFSTARPOP_PBOUNDS._fields == tuple(NAMES), "published:bounds-names")
    for k in NAMES:
        mon.close([float(x) for x in getattr(DIFFSTARPOP_PBOUNDS, k)], R.ALL_POP_BOUNDS[k], 0, "published:bounds", name=k)
        mon.state("published", k)
    mon.ok(DEFAULT_DIFFSTARPOP_U_PARAMS._fields == tuple("u_" + k for k in NAMES), "published:u-names")


@CASES(quick=10, thorough=150)
def forward(mon, rng):
    reach = (0.3, 1.0, 5.0, 100.0, 1e6)[mon.rep % 5]
    u = gen.f32(0.5 * (LO + HI) + 10 * reach * rng.normal(0, 1, len(NAMES)))
    b = get_bounded_diffstarpop_params(DiffstarPopUParams(*u))
    mon.ok(b._fields == tuple(NAMES), "forward:names")
    B = vec(b)
    mon.close(B, R.bound_pop(u, LO, HI), tolb(mon) + 0.1 * 0.25 * W * 2 * eps(mon) * np.abs(u), "forward:model", reach=reach)
    mon.ok((B >= LO - 2 * eps(mon) * MAG) & (B <= HI + 2 * eps(mon) * MAG), "forward:within-bounds", reach=reach)
    # order of the fields of the input does not matter: values go by name
    sh = rng.permutation(len(NAMES))
    from collections import namedtuple

    T = namedtuple("Shuffled", ["u_" + NAMES[i] for i in sh])
    b2 = get_bounded_diffstarpop_params(T(*u[sh]))
    mon.same(vec(b2), B, "forward:by-name")
    mon.state("forward", reach)
    mon.sample(u=u[:5], bounded=B[:5])


@CASES(quick=4, thorough=40)
def sweep(mon, rng):
    """each coordinate strictly increasing in its own u, constant in the others'"""
    import jax

    f = jax.jit(jax.vmap(lambda u: np.array(0) + jax.numpy.array(get_bounded_diffstarpop_params(DiffstarPopUParams(*u)))))
    base = gen.f32(0.5 * (LO + HI) + 8 * rng.normal(0, 1, len(NAMES)))
    n = 13
    js = np.arange(len(NAMES))
    U = np.tile(base, (len(js), n, 1))
    g = np.linspace(-120, 120, n)
    for j in js:
        U[j, :, j] = gen.f32(g + 0.5 * (LO[j] + HI[j]))
    B = np.asarray(f(U.reshape(-1, len(NAMES))), np.float64).reshape(U.shape)
    for j in js:
        d = np.diff(B[j, :, j])
        want = np.diff(R.sigmoid(g, 0.0, 0.1, LO[j], HI[j]))
        mon.ok((d > 0)[want > 8 * eps(mon) * MAG[j]], "sweep:increasing", name=NAMES[j])
        mon.ok(d >= -2 * eps(mon) * MAG[j], "sweep:never-decreasing", name=NAMES[j])
        rest = np.delete(B[j], j, axis=1)
        mon.ok(rest == rest[0], "sweep:independent", name=NAMES[j])
        mon.state("sweep", NAMES[j])


@CASES(quick=12, thorough=150)
def roundtrip(mon, rng):
    reach = (5, 30, 80, 250)[mon.rep % 4]
    u = gen.f32(0.5 * (LO + HI) + reach * rng.uniform(-1, 1, len(NAMES)))
    b = get_bounded_diffstarpop_params(DiffstarPopUParams(*u))
    v = get_unbounded_diffstarpop_params(b)
    B = vec(b)
    tol, ok, f = inv_sigmoid_tol(mon, B, LO, HI, 0.1)
    tol = tol + 10 * eps(mon) * (10 + np.abs(u))
    mon.ok(v._fields == tuple("u_" + k for k in NAMES), "roundtrip:names")
    mon.close(vec(v)[ok], u[ok], tol[ok], "roundtrip:u->p->u", reach=reach)
    side = rng.choice([0, 1, 2], len(NAMES))
    gap = 10 ** rng.uniform(-11 if mon.x64 else -5, -2, len(NAMES))
    P = LO + W * np.where(side == 0, rng.uniform(0.02, 0.98, len(NAMES)), np.where(side == 1, gap, 1 - gap))
    P = P if mon.x64 else gen.f32(P)
    tol, ok, f = inv_sigmoid_tol(mon, P, LO, HI, 0.1)
    w = get_unbounded_diffstarpop_params(DiffstarPopParams(*P))
    with np.errstate(divide="ignore", invalid="ignore"):
        want = np.asarray(R.unbound_pop(P, LO, HI))
    tol = tol + 10 * eps(mon) * (10 + np.abs(np.where(ok, want, 0)))
    mon.close(vec(w)[ok], want[ok], tol[ok], "roundtrip:inverse-model")
    ff = np.clip(f, 0, 1)
    tb = 30 * eps(mon) * MAG + 0.1 * W * ff * (1 - ff) * np.where(ok, tol, 0)
    mon.close(vec(get_bounded_diffstarpop_params(w))[ok], P[ok], tb[ok], "roundtrip:p->u->p")
    mon.ok(ok.mean() > 0.3, "roundtrip:enough")
    # component transforms
    a = sp.get_bounded_sfh_pdf_params(sp.QseqUParams(*[getattr(DiffstarPopUParams(*u), "u_" + k) for k in sp.QseqParams._fields]))
    mon.close(vec(a), [getattr(b, k) for k in a._fields], 4 * eps(mon) * 25, "roundtrip:sfh-part")
    c = sq.get_bounded_satquenchpop_params(sq.SatQuenchPopUParams(*[getattr(DiffstarPopUParams(*u), "u_" + k) for k in sq.SatQuenchPopParams._fields]))
    mon.close(vec(c), [getattr(b, k) for k in c._fields], 4 * eps(mon) * 25, "roundtrip:sat-part")
    mon.state("roundtrip", reach)


def calibrations():
    from diffstar.diffstarpop.kernels.params import params_diffstarfits_mgash as a
    from diffstar.diffstarpop.kernels.params import params_diffstarpopfits_mgash as b

    out = {"default": (DEFAULT_DIFFSTARPOP_PARAMS, DEFAULT_DIFFSTARPOP_U_PARAMS)}
    for nm, P, U in (
        ("pop", b.DiffstarPop_Params_Diffstarpopfits_mgash, b.DiffstarPop_UParams_Diffstarpopfits_mgash),
        ("fits", a.DiffstarPop_Params_Diffstarfits_mgash, a.DiffstarPop_UParams_Diffstarfits_mgash),
    ):
        for k in P:
            out[nm + ":" + k] = (P[k], U[k])
    for k, v in SIMULATION_FIT_PARAMS.items():
        out["public:" + k] = (v, None)
    return out


SIMS = ("smdpl_dr1_nomerging", "smdpl_dr1", "tng", "galacticus_in_situ", "galacticus_in_plus_ex_situ")


@CASES(quick=1, thorough=3)
def shipped(mon, rng):
    import jax.random as jran
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS

    from diffstar.diffstarpop import mc_diffstar_sfh_galpop

    cal = calibrations()
    for s in SIMS:
        for g in ("pop:", "fits:", "public:"):
            mon.ok(g + s in cal, "shipped:all-simulations", name=g + s)
    for nm, (p, u) in cal.items():
        P = np.array([float(getattr(p, k)) for k in NAMES])
        mon.ok(set(p._fields) == set(NAMES), "shipped:names", cal=nm)
        mon.ok((P > LO) & (P < HI), "shipped:strictly-within-bounds", cal=nm, where_names=[k for k, x, l, h in zip(NAMES, P, LO, HI) if not l < x < h])
        if u is not None:
            U = np.array([float(getattr(u, "u_" + k)) for k in NAMES])
            mon.ok(np.isfinite(U), "shipped:u-finite", cal=nm)
            B = vec(get_bounded_diffstarpop_params(DiffstarPopUParams(*U)))
            mon.close(B, P, 60 * eps(mon) * MAG * W / (P - LO) + 2e-6 * MAG, "shipped:forms-agree", cal=nm)
        else:
            # the public table is the population-calibrated one
            q = cal["pop:" + nm.split(":")[1]][0]
            mon.same(P, [float(getattr(q, k)) for k in NAMES], "shipped:public-is-pop", cal=nm)
        n = 120
        logm0 = rng.uniform(11, 15, n)
        tp = rng.uniform(1, 13.8, n)
        m = [np.full(n, float(x)) for x in DEFAULT_MAH_PARAMS]
        m[0], m[4] = logm0, tp
        upid, lgmu, lgmh, gyr = gen.satellites(rng, n)
        t = np.linspace(0.1, 13.8, 20)
        pp = DiffstarPopParams(*P)
        out = mc_diffstar_sfh_galpop(pp, type(DEFAULT_MAH_PARAMS)(*m), logm0, upid, lgmu, lgmh, gyr,
                                     jran.key(int(rng.integers(2**31))), t, lgt0=np.log10(13.8), fb=0.156)
        for k in ("sfh_ms", "sfh_q", "frac_q"):
            mon.ok(np.isfinite(np.asarray(getattr(out, k))), "shipped:finite", cal=nm, field=k)
        for k in ("diffstar_params_ms", "diffstar_params_q"):
            mon.ok(np.isfinite(np.asarray(list(getattr(out, k)))), "shipped:finite-params", cal=nm)
        fq = np.asarray(out.frac_q)
        mon.ok((fq >= 0) & (fq <= 1), "shipped:frac", cal=nm)
        mon.state("shipped", nm)
    names = [k for k in cal if k.startswith("public:")]
    for i, a in enumerate(names):
        for b in names[:i]:
            mon.ok(any(float(x) != float(y) for x, y in zip(cal[a][0], cal[b][0])), "shipped:distinct", a=a, b=b)
