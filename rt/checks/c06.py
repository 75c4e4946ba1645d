"""C06: gas budget."""

import numpy as np

from diffstar import calc_mgas_galpop, calc_mgas_singlegal

from .. import core, gen
from .. import refmodel as R
from ..lib import call_pop, call_single, check_sfh, eps, gal, lg, mah, row, tol_lgsfr

CASES = core.Registry()
RULE = (
    "Each execution is a gas-history call; gas + stars is compared at every galaxy and time with the independently "
    "integrated accretion, the rates with the returned masses, and the SFH/SMH with the star-formation functions; "
    "a class is (entry point, grid kind, halo stratum, cosmology)."
)
ASSUMPTIONS = ["the accretion rate is the analytic derivative of the halo model, zero strictly after its peak time"]


def judge(mon, g, p, m, t, lgt0, fb, oracle, /, **kw):
    mm = R.col(m) if np.ndim(m[0]) else m
    shp = np.broadcast_shapes(np.shape(mm[0]), (len(t),))
    for f in ("sfh", "smh", "dmgash", "mgash"):
        mon.ok(np.shape(getattr(g, f)) == shp, oracle + ":shape", field=f, got=np.shape(getattr(g, f)))
        mon.ok(np.isfinite(np.asarray(getattr(g, f))), oracle + ":finite", field=f, **kw)
    smh, mg = np.asarray(g.smh, np.float64), np.asarray(g.mgash, np.float64)
    d = R.dmhdt(mm, t, lgt0)
    acc = R.smh(t, fb * d)
    pos = R.smh(t, fb * np.abs(d))
    e = 4e-14 * (len(t) + 50) + 1e-11 if mon.x64 else 3e-5 + 4e-7 * len(t)
    scale = pos + smh
    mon.close(mg + smh, acc, e * scale + 1e-20, oracle + ":gas+stars=accreted", **kw)
    s = np.asarray(g.sfh, np.float64)
    mon.close(smh, R.smh(t, s), (len(t) + 60) * 3 * eps(mon) * smh + 1e-30, oracle + ":smh-integral", **kw)
    # growth rate from the returned gas
    if len(t) > 1:
        dt = R.dt_bins(t)
        want = np.stack([R.dt_bins(x) for x in np.atleast_2d(mg)]) / dt / 1e9
        want = want.reshape(mg.shape)
        mx = np.max(np.abs(mg), axis=-1, keepdims=True)
        tol = 12 * eps(mon) * mx / dt / 1e9 + np.abs(want) * (20 * eps(mon) * (1 + np.max(t) / dt))
        mon.close(g.dmgash, want, tol + 1e-30, oracle + ":rate", **kw)
    check_sfh(mon, g.sfh, p, m, t, lgt0, fb, oracle + ":sfh", **kw)


@CASES(quick=12, thorough=120)
def pop(mon, rng):
    n = int((1, 2, 3, 17, 80)[mon.rep % 5])
    lgt0, fb, t0, cl = gen.cosmo(rng)
    t, gk = gen.grid(rng, int(rng.choice([4, 20, 60])), t0, kind=gen.GRIDS[mon.rep % len(gen.GRIDS)])
    m, hs = gen.halo(rng, n, t, t0)
    p, gs = gen.galaxy(rng, n)
    p, m = gen.f32t(p), gen.f32t(m)
    g = calc_mgas_galpop(gal(p), mah(m), t, lgt0, fb)
    judge(mon, g, p, m, t, lgt0, fb, "pop", n=n, grid=gk, t0=t0, fb=fb)
    h = call_pop(p, m, t, lgt0, fb, return_smh=True)
    tol = tol_lgsfr(mon, p, m, t, lgt0, fb)
    mon.close(lg(g.sfh), lg(h.sfh), tol, "pop:same-sfh")
    sm = np.asarray(h.smh, np.float64)
    rel = np.expm1(np.log(10) * np.minimum(tol, 0.3))
    mon.close(g.smh, sm, R.smh(t, rel * np.asarray(h.sfh, np.float64)) + (len(t) + 60) * 2 * eps(mon) * sm, "pop:same-smh")
    for a in set(hs):
        mon.state("pop", gk, a, cl)
    mon.sample(grid=gk, t=t[:3], mgash=np.asarray(g.mgash)[0, :3], smh=np.asarray(g.smh)[0, :3])


@CASES(quick=4, thorough=16)
def shapes(mon, rng):
    """small and square tables, long grids, large populations"""
    lgt0, fb, t0, cl = gen.cosmo(rng)
    big = ((2, 1025), (4099, 4), (2, 3001), (20011, 3))[mon.rep % 4]
    for n, nt in gen.shapes(rng, 4, mon.rep) + [big]:
        t = gen.f32(np.linspace(0.2, t0, nt))
        m, hs = gen.halo(rng, n, t, t0)
        p, gs = gen.galaxy(rng, n)
        p, m = gen.f32t(p), gen.f32t(m)
        g = calc_mgas_galpop(gal(p), mah(m), t, lgt0, fb)
        judge(mon, g, p, m, t, lgt0, fb, "shapes", n=n, nt=nt, t0=t0, fb=fb)
        if nt > 1000:
            h = calc_mgas_singlegal(gal(row(p, 0)), mah(row(m, 0)), t, lgt0, fb)
            judge(mon, h, row(p, 0), row(m, 0), t, lgt0, fb, "shapes:single", nt=nt)
        mon.state("shape", n, nt)


@CASES(quick=14, thorough=160)
def single(mon, rng):
    lgt0, fb, t0, cl = gen.cosmo(rng)
    gk = gen.GRIDS[mon.rep % len(gen.GRIDS)]
    t, gk = gen.grid(rng, 30, t0, kind=gk)
    m, hs = gen.halo(rng, 1, t, t0)
    p, gs = gen.galaxy(rng, 1)
    p, m = row(gen.f32t(p), 0), row(gen.f32t(m), 0)
    if mon.rep % 3:
        g = calc_mgas_singlegal(gal(p), mah(m), t, lgt0=lgt0, fb=fb)
    else:  # documented defaults
        lgt0, fb = float(np.log10(13.8)), 0.156
        g = calc_mgas_singlegal(gal(p), mah(m), t)
    judge(mon, g, p, m, t, lgt0, fb, "single", p=p, m=m, grid=gk)
    h = call_single(p, m, t, lgt0, fb, return_smh=True)
    tol = tol_lgsfr(mon, p, m, t, lgt0, fb)
    mon.close(lg(g.sfh), lg(h.sfh), tol, "single:same-sfh")
    mon.state("single", gk, hs[0], gs[0])


@CASES(quick=2, thorough=20)
def default_args(mon, rng):
    n = 5
    t = gen.f32(np.linspace(0.1, 13.8, 35))
    m, _ = gen.halo(rng, n, t)
    p, _ = gen.galaxy(rng, n)
    p, m = gen.f32t(p), gen.f32t(m)
    g = calc_mgas_galpop(gal(p), mah(m), t)
    judge(mon, g, p, m, t, float(np.log10(13.8)), 0.156, "default-args")
    mon.state("default-args")
