"""C05: stellar mass is the running integral of the returned SFR."""

import numpy as np

from diffstar import calc_mgas_galpop, calc_mgas_singlegal
from diffstar import utils as du

from .. import core, gen
from .. import refmodel as R
from ..lib import call_pop, call_single, eps, gal, lg, mah, row, tol_lgsfr

CASES = core.Registry()
RULE = (
    "Each execution integrates the SFR that the code itself returned (or a table handed to the integrator) "
    "independently and compares every stellar mass; a class is (producer, grid kind, number of times, SFH kind)."
)
ASSUMPTIONS = ["trapezoid from (T_BIRTH_MIN, SFR_MIN) as documented in cumulative_mstar_formed"]


def itol(mon, n):
    return (n + 40) * eps(mon) * 2.0


def judge(mon, t, sfh, smh, oracle, /, **kw):
    s, m = np.asarray(sfh, np.float64), np.asarray(smh, np.float64)
    if not mon.ok(s.shape == m.shape, oracle + ":shape", got=m.shape, want=s.shape):
        return
    want = R.smh(t, s)
    # rounding of the time differences
    pad = np.concatenate([[R.T_BIRTH_MIN], t])
    dt_err = 2 * eps(mon) * pad[1:]
    sp = np.concatenate([np.full(s.shape[:-1] + (1,), R.SFR_MIN), s], -1)
    amp = np.cumsum(dt_err * 0.5 * np.abs(sp[..., 1:] + sp[..., :-1]), -1) * 1e9
    mon.close(m, want, itol(mon, len(t)) * np.abs(want) + amp + 1e-30, oracle + ":integral", **kw)
    if (s >= 0).all():
        mon.ok(np.diff(m, axis=-1) >= 0, oracle + ":never-decreases", **kw)
        mon.ok(m > 0, oracle + ":positive", **kw)


@CASES(quick=10, thorough=100)
def pop(mon, rng):
    n = int((1, 2, 7, 50, 300)[mon.rep % 5])
    lgt0, fb, t0, cl = gen.cosmo(rng)
    t, gk = gen.grid(rng, int(rng.choice([1, 2, 3, 5, 30, 120])), t0, kind=gen.GRIDS[mon.rep % len(gen.GRIDS)])
    m, _ = gen.halo(rng, n, t, t0)
    p, gs = gen.galaxy(rng, n)
    p, m = gen.f32t(p), gen.f32t(m)
    h = call_pop(p, m, t, lgt0, fb, return_smh=True)
    judge(mon, t, h.sfh, h.smh, "pop", n=n, grid=gk)
    s = call_pop(p, m, t, lgt0, fb)
    mon.close(lg(h.sfh), lg(s), tol_lgsfr(mon, p, m, t, lgt0, fb), "pop:sfh-unchanged")
    if len(t) > 1:
        g = calc_mgas_galpop(gal(p), mah(m), t, lgt0, fb)
        judge(mon, t, g.sfh, g.smh, "gaspop", n=n, grid=gk)
    i = int(rng.integers(n))
    h1 = call_single(row(p, i), row(m, i), t, lgt0, fb, return_smh=True)
    judge(mon, t, h1.sfh, h1.smh, "single", grid=gk, p=row(p, i), m=row(m, i))
    s1 = call_single(row(p, i), row(m, i), t, lgt0, fb)
    mon.close(lg(h1.sfh), lg(s1), tol_lgsfr(mon, row(p, i), row(m, i), t, lgt0, fb), "single:sfh-unchanged")
    if len(t) > 1:
        g1 = calc_mgas_singlegal(gal(row(p, i)), mah(row(m, i)), t, lgt0, fb)
        judge(mon, t, g1.sfh, g1.smh, "gassingle", grid=gk)
    mon.state("pop", gk, n, len(t))
    mon.sample(grid=gk, t=t[:4], sfh=np.asarray(h.sfh)[0, :4], smh=np.asarray(h.smh)[0, :4])


@CASES(quick=4, thorough=16)
def shapes(mon, rng):
    """small and square tables, long grids, large populations"""
    lgt0, fb, t0, cl = gen.cosmo(rng)
    big = ((2, 1025), (2, 3001), (4099, 3), (20011, 2))[mon.rep % 4]
    for n, nt in gen.shapes(rng, 4, mon.rep) + [big]:
        t = gen.f32(np.linspace(0.2, t0, nt))
        m, _ = gen.halo(rng, n, t, t0)
        p, gs = gen.galaxy(rng, n)
        p, m = gen.f32t(p), gen.f32t(m)
        h = call_pop(p, m, t, lgt0, fb, return_smh=True)
        judge(mon, t, h.sfh, h.smh, "shapes", n=n, nt=nt)
        g = calc_mgas_galpop(gal(p), mah(m), t, lgt0, fb)
        judge(mon, t, g.sfh, g.smh, "shapes:gas", n=n, nt=nt)
        if nt > 1000:
            h1 = call_single(row(p, 0), row(m, 0), t, lgt0, fb, return_smh=True)
            judge(mon, t, h1.sfh, h1.smh, "shapes:single", nt=nt)
        mon.state("shape", n, nt)


SFHS = ("const", "lognormal", "burst", "zeros", "late", "floor", "huge", "step", "negative")


def table(rng, t, kind):
    n = len(t)
    s = {
        "const": np.full(n, rng.uniform(0.1, 100)),
        "lognormal": 10 ** rng.normal(0, 1.5, n),
        "burst": np.where(np.arange(n) == n // 2, 1e3, 1e-3),
        "zeros": np.zeros(n),
        "late": np.where(t > np.median(t), 5.0, 0.0),
        "floor": np.full(n, 1e-14),
        "huge": 10 ** rng.uniform(4, 8, n),
        "step": np.where(rng.random(n) < 0.5, 10.0, 0.0),
        "negative": rng.normal(0, 10, n),
    }[kind]
    return gen.f32(s)


@CASES(quick=12, thorough=150)
def integrator(mon, rng):
    gk = gen.GRIDS[rng.integers(len(gen.GRIDS))]
    t, gk = gen.grid(rng, int(rng.choice([1, 2, 4, 20, 100, 500, 1025, 2000])), kind=gk, tmin=0.02)
    if mon.rep % 4 == 0:
        t = np.unique(np.concatenate([[float(np.float32(0.01))], t[t > 0.011]]))
    kind = SFHS[mon.rep % len(SFHS)]
    s = table(rng, t, kind)
    a = np.asarray(du.cumulative_mstar_formed(t, s), np.float64)
    if kind == "negative":
        pad = np.concatenate([[R.SFR_MIN], np.abs(s)])
        sc = np.cumsum(np.diff(np.concatenate([[0.001], t])) * (pad[1:] + pad[:-1])) * 1e9
        mon.close(a, R.smh(t, s), itol(mon, len(t)) * sc + 4 * eps(mon) * sc * 20, "integrator:signed")
    else:
        judge(mon, t, s, a, "integrator", kind=kind, grid=gk)
    S = np.stack([s, table(rng, t, "lognormal"), table(rng, t, "step")])
    b = du.cumulative_mstar_formed_galpop(t, S)
    judge(mon, t, S[1:], np.asarray(b)[1:], "integrator-pop", grid=gk)
    mon.close(np.asarray(b)[0], a, itol(mon, len(t)) * np.abs(a).max() + 1e-30, "integrator:pop-row")
    # depends on the past only
    if len(t) > 3:
        k = len(t) // 2
        s2 = s.copy()
        s2[k:] = np.nan
        c = du.cumulative_mstar_formed(t, s2)
        mon.same(np.asarray(c)[:k], np.asarray(du.cumulative_mstar_formed(t, s))[:k], "integrator:past-only")
    # additive in SFH, linear in units
    s3 = table(rng, t, "lognormal")
    x = np.asarray(du.cumulative_mstar_formed(t, s3), np.float64)
    y = np.asarray(du.cumulative_mstar_formed(t, gen.f32(s3 * 2)), np.float64)
    mon.close(y, 2 * x, itol(mon, len(t)) * np.abs(x) * 2 + 1e-3, "integrator:linear")
    mon.state("integrator", kind, gk, min(len(t), 6))


@CASES(quick=6, thorough=60)
def additive(mon, rng):
    """mass over [t0,t2] = mass over [t0,t1] + mass over [t1,t2], whatever grid covered the first part"""
    t, gk = gen.grid(rng, 60, kind=("lin", "random", "log")[mon.rep % 3])
    s = table(rng, t, "lognormal")
    full = np.asarray(du.cumulative_mstar_formed(t, s), np.float64)
    k = int(rng.integers(3, len(t) - 3))
    head = np.asarray(du.cumulative_mstar_formed(t[: k + 1], s[: k + 1]), np.float64)
    mon.close(head, full[: k + 1], itol(mon, len(t)) * full[: k + 1], "additive:head")
    tail = np.trapezoid(s[k:], t[k:]) * 1e9
    mon.close(full[-1], head[-1] + tail, 4 * itol(mon, len(t)) * full[-1], "additive:tail")
    # inserting points on the straight line between neighbours changes nothing
    mid = gen.f32(0.5 * (t[1:] + t[:-1]))
    tt = np.sort(np.concatenate([t, mid]))
    ss = np.interp(tt, t, s)
    fine = np.asarray(du.cumulative_mstar_formed(tt, ss), np.float64)
    # the first segment runs from the floor and is not refined
    mon.close(fine[::2], full, 4 * itol(mon, 2 * len(t)) * full, "additive:refine")
    mon.state("additive", gk)


@CASES(quick=8, thorough=80)
def whole_numbers(mon, rng):
    """times and rates given as whole numbers (integer arrays, Python lists of them) mean what they say"""
    n = int(rng.choice([1, 2, 4, 13]))
    t = np.sort(rng.choice(np.arange(1, 15), n, replace=False))
    s = rng.integers(0, 60, (3, n))
    tf, sf = t.astype(float), s.astype(float)
    dt = (np.int32, np.int64)[mon.rep % 2]
    for nm, a, b in (("time", t.astype(dt), sf), ("rate", tf, s.astype(dt)), ("both", t.astype(dt), s.astype(dt)),
                     ("f32", tf.astype(np.float32), sf.astype(np.float32))):
        if nm == "f32" and mon.x64:  # single-precision input may be summed in single precision
            continue
        m = du.cumulative_mstar_formed(a, b[0])
        judge(mon, tf, sf[0], m, "whole:single", given=nm)
        judge(mon, tf, sf, du.cumulative_mstar_formed_galpop(a, b), "whole:pop", given=nm)
        mon.state("whole", nm, n, np.dtype(dt).name)
    lgt0, fb, t0, cl = gen.cosmo(rng)
    mh, _ = gen.halo(rng, 3, tf, t0)
    p, gs = gen.galaxy(rng, 3)
    p, mh = gen.f32t(p), gen.f32t(mh)
    for nm, call, judged in (
        ("sfh", lambda: call_pop(p, mh, t.astype(dt), lgt0, fb, return_smh=True), lambda r: (r.sfh, r.smh)),
        ("gas", lambda: calc_mgas_galpop(gal(p), mah(mh), t.astype(dt), lgt0, fb), lambda r: (r.sfh, r.smh)),
    ):
        if nm == "gas" and n < 2:
            continue
        try:
            r = call()
        except TypeError:  # refusing whole-number times loudly is fine
            mon.ok(True, "whole:refused")
            continue
        judge(mon, tf, *judged(r), "whole:" + nm)
