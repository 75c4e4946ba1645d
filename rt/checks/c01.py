"""C01: SFR == fb * Mhalo(t) * efficiency(Mhalo) * quenching(t), floored."""

import numpy as np

from .. import core, gen
from .. import refmodel as R
from ..lib import call_pop, call_single, check_sfh, eps, gal, lg, mah, ref_lgsfr, row, tol_lgsfr

CASES = core.Registry()
RULE = (
    "Each execution is one call of a public SFH function on generated galaxies x halos x cosmology x time "
    "grid; a class is (entry point, galaxy stratum, halo stratum, grid kind, population size, cosmology) "
    "actually seen by the monitor; every returned SFR value is one evaluation against the float64 model."
)
ASSUMPTIONS = [
    "diffmah supplies the halo mass (its formula is re-implemented in the reference and cross-checked at setup)",
    "float32 results may differ from the model by the rounding of the documented intermediates",
]
SIZES = (1, 2, 3, 7, 33, 64, 257, 1000)


@CASES(quick=14, thorough=160)
def pop(mon, rng):
    n = SIZES[mon.rep % len(SIZES)]
    lgt0, fb, t0, cl = gen.cosmo(rng)
    t, gk = gen.grid(rng, rng.choice([1, 2, 5, 31, 60, 150]), t0, kind=None)
    m, hs = gen.halo(rng, n, t, t0)
    p, gs = gen.galaxy(rng, n)
    p, m = gen.f32t(p), gen.f32t(m)
    out = call_pop(p, m, t, lgt0, fb)
    mon.ok(np.shape(out) == (n, len(t)), "pop:shape", got=np.shape(out), want=(n, len(t)))
    check_sfh(mon, out, p, m, t, lgt0, fb, "pop:model", n=n, grid=gk, t0=t0, fb=fb)
    for a, b in set(zip(gs, hs)):
        mon.state("pop", a, b, gk, cl)
    mon.state("n", n, len(t))
    mon.sample(entry="calc_sfh_galpop", n=n, grid=gk, t=t[:5], params=row(p, 0), halo=row(m, 0), sfh=np.asarray(out)[0, :5])


@CASES(quick=24, thorough=400)
def single(mon, rng):
    lgt0, fb, t0, cl = gen.cosmo(rng)
    # few shapes, so that few programs are compiled
    nt = int((1, 2, 40, 40, 40)[mon.rep % 5])
    t = np.sort(gen.f32(rng.uniform(0.05, 1.5 * t0, nt)))
    if mon.rep % 4 == 1:
        t = gen.f32(np.linspace(0.1, t0, nt))
    m, hs = gen.halo(rng, 1, t, t0)
    p, gs = gen.galaxy(rng, 1)
    p, m = row(gen.f32t(p), 0), row(gen.f32t(m), 0)
    smh = mon.rep % 3 == 2
    out = call_single(p, m, t, lgt0, fb, return_smh=smh)
    sfh = out.sfh if smh else out
    mon.ok(np.shape(sfh) == (nt,), "single:shape", got=np.shape(sfh))
    check_sfh(mon, sfh, p, m, t, lgt0, fb, "single:model", p=p, m=m, t0=t0, fb=fb)
    mon.state("single", gs[0], hs[0], cl, nt)


@CASES(quick=4, thorough=40)
def floor(mon, rng):
    """galaxies far below the floor, and the floor crossed in the middle of a history"""
    n = 40
    lgt0, fb, t0, cl = gen.cosmo(rng)
    t = gen.f32(np.linspace(0.05, t0, 30))
    m, _ = gen.halo(rng, n, t, t0)
    m = list(m)
    m[0] = rng.uniform(1.0, 12.0, n)
    p, _ = gen.galaxy(rng, n, ["lowsfr", "deep"])
    p = list(p)
    p[2] = rng.uniform(2.0, 5.0, n)
    p, m = gen.f32t(p), gen.f32t(m)
    out = np.asarray(call_pop(p, m, t, lgt0, fb), np.float64)
    check_sfh(mon, out, p, m, t, lgt0, fb, "floor:model", t0=t0, fb=fb)
    raw = R.lg_sfr(R.col(p), R.col(m), t, lgt0, fb)
    deep = raw < -14.5
    mon.close(out[deep] / R.SFR_MIN, np.ones(deep.sum()), 2e-7, "floor:value")
    mixed = int((deep.any(1) & (raw > -13).any(1)).sum())
    mon.state("floor", cl, "all-floored" if deep.all(1).any() else "-", "mixed" if mixed else "-")
    r = call_single(row(p, 0), row(m, 0), t, lgt0, fb)
    check_sfh(mon, r, row(p, 0), row(m, 0), t, lgt0, fb, "floor:single")


@CASES(quick=4, thorough=30)
def scaling(mon, rng):
    """metamorphic: SFR scales with fb; age and fb given as arrays, NumPy or JAX scalars agree"""
    n = 12
    lgt0, fb, t0, cl = gen.cosmo(rng)
    t = gen.f32(np.linspace(0.3, t0, 25))
    m, _ = gen.halo(rng, n, t, t0)
    p, _ = gen.galaxy(rng, n)
    p, m = gen.f32t(p), gen.f32t(m)
    a = np.asarray(call_pop(p, m, t, lgt0, fb), np.float64)
    b = np.asarray(call_pop(p, m, t, lgt0, 2 * fb), np.float64)
    ok = a > 1e-12
    mon.close(b[ok] / a[ok], np.full(ok.sum(), 2.0), 40 * eps(mon), "scaling:fb", fb=fb)
    import jax.numpy as jnp

    c = call_pop(p, m, t, np.float64(lgt0), jnp.array(fb))
    mon.close(lg(c), lg(a), tol_lgsfr(mon, p, m, t, lgt0, fb), "scaling:scalar-kind")
    # zero drop and rejuvenation: pure main sequence; efficiency at the critical mass
    p2 = list(p)
    p2[6] = p2[7] = np.zeros(n)
    d = call_pop(p2, m, t, lgt0, fb)
    check_sfh(mon, d, p2, m, t, lgt0, fb, "scaling:main-sequence")
    mon.state("scaling", cl)


@CASES(quick=3, thorough=20)
def kernels(mon, rng):
    """the published kernels obey the same definition"""
    from diffstar.kernels import history_kernel_builders as hk
    from diffstar.kernels import main_sequence_kernels as ms

    n = 9
    lgt0, fb, t0, cl = gen.cosmo(rng)
    t = gen.f32(np.linspace(0.3, t0, 20))
    m, _ = gen.halo(rng, n, t, t0)
    p, gs = gen.galaxy(rng, n)
    p, m = gen.f32t(p), gen.f32t(m)
    i = int(rng.integers(n))
    pi, mi = row(p, i), row(m, i)
    s = hk._sfh_singlegal_kern(t, mah(mi), pi[:4], pi[4:], lgt0, fb)
    check_sfh(mon, s, pi, mi, t, lgt0, fb, "kern:singlegal")
    sc = hk._sfh_singlegal_scalar(float(t[7]), mah(mi), pi[:4], pi[4:], lgt0, fb)
    check_sfh(mon, np.atleast_1d(sc), pi, mi, t[7:8], lgt0, fb, "kern:scalar")
    g = hk._sfh_galpop_kern(t, np.array(m).T, np.array(p[:4]).T, np.array(p[4:]).T, lgt0, fb)
    check_sfh(mon, g, p, m, t, lgt0, fb, "kern:galpop")
    pms = tuple(pi[:4]) + (pi[4], pi[5], 0.0, 0.0)
    want = ref_lgsfr(pms, mi, t, lgt0, fb)
    tol = tol_lgsfr(mon, pms, mi, t, lgt0, fb)
    for nm in ("sfh_ms_kernel", "sfh_ms_kernel_vmap"):
        v = getattr(ms, nm)(t, mah(mi), pi[:4], lgt0, fb)
        hi = want > -13.9
        mon.close(lg(v)[hi], want[hi], tol[hi], "kern:" + nm)
    lgm = gen.f32(rng.uniform(9.0, 15.5, 200))
    for j in range(3):
        q = row(p, j)[:4]
        e = np.asarray(ms._sfr_eff_plaw(lgm, *q), np.float64)
        w = R.lg_eff(lgm, *q)
        sens = np.abs(R.lg_eff(lgm + 1e-6, *q) - w) * (1e-6 if mon.x64 else 5)
        mon.close(e, w, 60 * eps(mon) * (1 + np.abs(w)) + sens, "kern:efficiency")
    mon.state("kern", gs[i], cl)


@CASES(quick=1, thorough=4)
def defaults(mon, rng):
    """published constants and default galaxy"""
    import diffstar
    from diffstar import defaults as d

    mon.ok(tuple(d.DEFAULT_DIFFSTAR_PARAMS._fields) == R.PNAMES, "defaults:names")
    mon.close([float(x) for x in d.DEFAULT_DIFFSTAR_PARAMS], [R.DEFAULTS[k] for k in R.PNAMES], 1e-12, "defaults:values")
    mon.close([d.SFR_MIN, d.T_BIRTH_MIN, d.FB, d.TODAY, float(d.LGT0), d.T_TABLE_MIN],
              [1e-14, 1e-3, 0.156, 13.8, np.log10(13.8), 0.01], 1e-15, "defaults:constants")
    for k, b in list(d.MS_PARAM_BOUNDS_PDICT.items()) + list(d.Q_PARAM_BOUNDS_PDICT.items()):
        mon.close([float(x) for x in b], R.BOUNDS[k], 0, "defaults:bounds", name=k)
    t = np.linspace(0.2, 13.8, 60)
    m = tuple(float(x) for x in d.DEFAULT_MAH_PARAMS)
    out = diffstar.calc_sfh_singlegal(d.DEFAULT_DIFFSTAR_PARAMS, d.DEFAULT_MAH_PARAMS, t, lgt0=d.LGT0, fb=d.FB)
    check_sfh(mon, out, tuple(R.DEFAULTS[k] for k in R.PNAMES), m, t, np.log10(13.8), 0.156, "defaults:model")
    # the number of galaxies is not special: a one-galaxy population and a large one
    for n in (1, 4096):
        p = tuple(np.full(n, R.DEFAULTS[k]) for k in R.PNAMES)
        mm = tuple(np.full(n, x) for x in m)
        o = np.asarray(call_pop(p, mm, t, np.log10(13.8), 0.156))
        mon.ok(o.shape == (n, 60), "defaults:shape")
        check_sfh(mon, o[[0, n - 1, n // 2]], tuple(x[:3] if n > 3 else np.repeat(x, 3) for x in p),
                  tuple(x[:3] if n > 3 else np.repeat(x, 3) for x in mm), t, np.log10(13.8), 0.156, "defaults:pop")
        mon.state("defaults", n)
    assert gal(R.DEFAULTS.values()) is not None


@CASES(quick=4, thorough=10)
def small_shapes(mon, rng):
    """as many galaxies or times as a galaxy or halo has parameters, square tables"""
    lgt0, fb, t0, cl = gen.cosmo(rng)
    for n, nt in gen.shapes(rng, 4, mon.rep):
        t = gen.f32(np.sort(rng.uniform(0.3, t0, nt)))
        m, hs = gen.halo(rng, n, t, t0)
        p, gs = gen.galaxy(rng, n)
        p, m = gen.f32t(p), gen.f32t(m)
        out = call_pop(p, m, t, lgt0, fb, return_smh=True)
        mon.ok(np.shape(out.sfh) == (n, nt), "shapes:shape", got=np.shape(out.sfh), want=(n, nt))
        check_sfh(mon, out.sfh, p, m, t, lgt0, fb, "shapes:model", n=n, nt=nt, t0=t0, fb=fb)
        mon.state("shape", n, nt)


LARGE = ((4097, 5), (10007, 4), (30011, 2), (3, 1025), (2, 3001), (1025, 33))


@CASES(quick=4, thorough=18)
def large(mon, rng):
    """populations and grids longer than any internal block or buffer is likely to be"""
    n, nt = LARGE[(mon.rep + int(rng.integers(2)) * 3 * (mon.rep > 3)) % len(LARGE)]
    lgt0, fb, t0, cl = gen.cosmo(rng)
    t = gen.f32(np.linspace(0.3, t0, nt))
    m, hs = gen.halo(rng, n, t, t0)
    p, gs = gen.galaxy(rng, n)
    p, m = gen.f32t(p), gen.f32t(m)
    out = call_pop(p, m, t, lgt0, fb)
    if mon.ok(np.shape(out) == (n, nt), "large:shape", got=np.shape(out), want=(n, nt)):
        check_sfh(mon, out, p, m, t, lgt0, fb, "large:model", n=n, nt=nt, t0=t0, fb=fb)
    i = int(rng.integers(n))
    r = call_single(row(p, i), row(m, i), t, lgt0, fb)
    check_sfh(mon, r, row(p, i), row(m, i), t, lgt0, fb, "large:single", n=n, nt=nt)
    mon.state("large", n, nt)
