"""C02: per-galaxy and per-time independence."""

import numpy as np

from diffstar import calc_mgas_galpop, calc_mgas_singlegal

from .. import core, gen
from .. import refmodel as R
from ..lib import call_pop, call_single, eps, gal, lg, mah, row, tol_lgsfr

CASES = core.Registry()
RULE = (
    "Each execution perturbs a population (poison, permute, subset, repeat, replace neighbours) or a time grid "
    "(subset, permute, extend) and compares, galaxy by galaxy and time by time, with the undisturbed or "
    "single-galaxy call; a class is (perturbation, function, population size, poison kind)."
)
ASSUMPTIONS = ["two compilations of one formula may differ by rounding; within one compiled shape equality is exact"]
POISON = (np.nan, np.inf, -np.inf, 1e30, -1e30)
SIZES = (2, 5, 8, 33, 129)


def setup(rng, n, nt=24):
    lgt0, fb, t0, cl = gen.cosmo(rng)
    t = gen.f32(np.linspace(0.2, t0, nt))
    m, _ = gen.halo(rng, n, t, t0)
    p, gs = gen.galaxy(rng, n)
    return gen.f32t(p), gen.f32t(m), t, lgt0, fb, gs


def close_sfh(mon, got, want, p, m, t, lgt0, fb, oracle, /, **kw):
    mon.close(lg(got), lg(want), tol_lgsfr(mon, p, m, t, lgt0, fb), oracle, **kw)


def gas_scale(h, t, fb, m, lgt0):
    acc = R.smh(t, fb * R.dmhdt(R.col(m) if np.ndim(m[0]) else m, t, lgt0))
    return np.maximum(np.abs(acc), np.asarray(h.smh, np.float64)) + 1.0


def close_gas(mon, a, b, p, m, t, lgt0, fb, oracle, /, **kw):
    """a, b GalHistory of equal shape"""
    # histories are sums of nt terms
    r = (1e-9 if mon.x64 else 4e-6) * (len(t) + 30)
    tl = np.expm1(np.log(10) * np.minimum(tol_lgsfr(mon, p, m, t, lgt0, fb), 0.3))
    sc = gas_scale(b, t, fb, m, lgt0)
    smh = np.asarray(b.smh, np.float64)
    tol = r * smh + R.smh(t, tl * np.asarray(b.sfh, np.float64)) + 1e-20
    mon.close(a.smh, smh, tol, oracle + ":smh", **kw)
    tm = tol + (1e-10 if mon.x64 else 1e-5) * sc
    mon.close(a.mgash, b.mgash, tm, oracle + ":mgash", **kw)
    dt = R.dt_bins(t)
    mx = np.max(tm, axis=-1, keepdims=True)
    mon.close(a.dmgash, b.dmgash, 4 * mx / dt / 1e9 + r * np.abs(np.asarray(b.dmgash, np.float64)), oracle + ":dmgash", **kw)


@CASES(quick=8, thorough=60)
def single_equals_pop(mon, rng):
    n = SIZES[mon.rep % len(SIZES)]
    p, m, t, lgt0, fb, gs = setup(rng, n)
    a = call_pop(p, m, t, lgt0, fb, return_smh=True)
    g = calc_mgas_galpop(gal(p), mah(m), t, lgt0, fb)
    mon.ok(np.shape(a.sfh) == (n, len(t)) and np.shape(a.smh) == (n, len(t)), "single=pop:shape")
    for i in sorted(set(rng.integers(0, n, 6)) | {0, n - 1}):
        pi, mi = row(p, i), row(m, i)
        s = call_single(pi, mi, t, lgt0, fb, return_smh=True)
        kw = dict(n=n, i=int(i), stratum=gs[i])
        close_sfh(mon, a.sfh[i], s.sfh, pi, mi, t, lgt0, fb, "single=pop:sfh", **kw)
        tl = np.expm1(np.log(10) * np.minimum(tol_lgsfr(mon, pi, mi, t, lgt0, fb), 0.3))
        sm = np.asarray(s.smh, np.float64)
        mon.close(a.smh[i], sm, R.smh(t, tl * np.asarray(s.sfh, np.float64)) + 60 * eps(mon) * sm, "single=pop:smh", **kw)
        h = calc_mgas_singlegal(gal(pi), mah(mi), t, lgt0, fb)
        close_sfh(mon, g.sfh[i], h.sfh, pi, mi, t, lgt0, fb, "single=pop:gas-sfh", **kw)
        gi = type(h)(*(np.asarray(x)[i] for x in g))
        close_gas(mon, gi, h, pi, mi, t, lgt0, fb, "single=pop:gas", **kw)
        mon.state("single=pop", n, gs[i])
    mon.sample(n=n, galaxy=row(p, 0), sfh=np.asarray(a.sfh)[0, :4])


@CASES(quick=10, thorough=100)
def poison(mon, rng):
    """garbage in some galaxies leaves the others bit-for-bit unchanged"""
    n = SIZES[mon.rep % len(SIZES)]
    p, m, t, lgt0, fb, gs = setup(rng, n)
    fns = {
        "sfh": lambda p, m: (call_pop(p, m, t, lgt0, fb),),
        "sfh+smh": lambda p, m: tuple(call_pop(p, m, t, lgt0, fb, return_smh=True)),
        "gas": lambda p, m: tuple(calc_mgas_galpop(gal(p), mah(m), t, lgt0, fb)),
    }
    bad = rng.random(n) < rng.choice([0.1, 0.5, 0.9])
    bad[rng.integers(n)] = True
    bad[rng.integers(n)] = False
    v = POISON[mon.rep % len(POISON)]
    p2, m2 = [x.copy() for x in p], [x.copy() for x in m]
    which = rng.integers(3)
    if which in (0, 2):
        for k in range(8):
            if rng.random() < 0.6 or k == 0:
                p2[k][bad] = v
    if which in (1, 2):
        for k in range(5):
            if rng.random() < 0.6 or k == 0:
                m2[k][bad] = v
    for nm, fn in fns.items():
        a, b = fn(p, m), fn(p2, m2)
        for x, y in zip(a, b):
            mon.same(np.asarray(y)[~bad], np.asarray(x)[~bad], "poison:" + nm, n=n, poison=v, nbad=int(bad.sum()))
        mon.state("poison", nm, v, n, int(which))


@CASES(quick=8, thorough=80)
def neighbours(mon, rng):
    """reorder, subset, repeat, replace every other galaxy"""
    n = SIZES[mon.rep % len(SIZES)]
    p, m, t, lgt0, fb, gs = setup(rng, n)
    a = call_pop(p, m, t, lgt0, fb, return_smh=True)
    g = calc_mgas_galpop(gal(p), mah(m), t, lgt0, fb)
    kinds = dict(
        permute=rng.permutation(n), reverse=np.arange(n)[::-1], subset=np.sort(rng.choice(n, max(1, n // 2), replace=False)),
        repeat=rng.integers(0, n, n + 3), alone=rng.integers(0, n, 1), same=np.full(n, rng.integers(n)))
    for k in list(kinds)[mon.rep % 2::2]:
        ix = kinds[k]
        q, h = tuple(x[ix] for x in p), tuple(x[ix] for x in m)
        b = call_pop(q, h, t, lgt0, fb, return_smh=True)
        close_sfh(mon, b.sfh, np.asarray(a.sfh)[ix], q, h, t, lgt0, fb, "neighbours:sfh", kind=k, n=n)
        close_sfh(mon, b.sfh, b.sfh, q, h, t, lgt0, fb, "neighbours:finite", kind=k)
        gb = calc_mgas_galpop(gal(q), mah(h), t, lgt0, fb)
        ga = type(gb)(*(np.asarray(x)[ix] for x in g))
        close_gas(mon, gb, ga, q, h, t, lgt0, fb, "neighbours:gas", kind=k, n=n)
        close_sfh(mon, gb.sfh, ga.sfh, q, h, t, lgt0, fb, "neighbours:gas-sfh", kind=k, n=n)
        mon.state("neighbours", k, n)
    i = int(rng.integers(n))
    p2, m2, *_ = setup(rng, n)
    for x, y in zip(list(p2) + list(m2), list(p) + list(m)):
        x[i] = y[i]
    b = call_pop(p2, m2, t, lgt0, fb)
    c = call_pop(p, m, t, lgt0, fb)
    mon.same(np.asarray(b)[i], np.asarray(c)[i], "neighbours:replaced", n=n)
    mon.state("neighbours", "replaced", n)


@CASES(quick=8, thorough=80)
def times(mon, rng):
    """SFR at one time does not depend on the other times"""
    n = 6
    p, m, t, lgt0, fb, gs = setup(rng, n, 40)
    t = np.sort(gen.f32(rng.uniform(0.1, 10 ** lgt0, 40)))
    a = np.asarray(call_pop(p, m, t, lgt0, fb))
    i = int(rng.integers(n))
    pi, mi = row(p, i), row(m, i)
    tol = tol_lgsfr(mon, p, m, t, lgt0, fb)
    subsets = dict(
        odd=np.arange(1, 40, 2), one=np.array([rng.integers(40)]), last=np.array([39]), shuffled=rng.permutation(40),
        reverse=np.arange(40)[::-1], two=np.sort(rng.choice(40, 2, replace=False)), repeated=rng.integers(0, 40, 40),
        head=np.arange(10))
    for k, ix in list(subsets.items())[mon.rep % 2::2]:
        b = call_pop(p, m, t[ix], lgt0, fb)
        mon.close(lg(b), lg(a)[:, ix], tol[:, ix], "times:pop", kind=k)
        s = call_single(pi, mi, t[ix], lgt0, fb)
        mon.close(lg(s), lg(a)[i, ix], tol[i, ix], "times:single", kind=k)
        mon.state("times", k)
    # replacing the other times by anything, even NaN, changes nothing at the kept ones
    keep = rng.random(40) < 0.5
    t2 = np.where(keep, t, gen.f32(rng.uniform(0.1, 40.0, 40)))
    b = np.asarray(call_pop(p, m, t2, lgt0, fb))
    mon.same(b[:, keep], a[:, keep], "times:replaced")
    t3 = np.where(keep, t, np.nan)
    b = np.asarray(call_pop(p, m, t3, lgt0, fb))
    mon.same(b[:, keep], a[:, keep], "times:nan")
    mon.state("times", "replaced")


@CASES(quick=3, thorough=8)
def small_shapes(mon, rng):
    """every galaxy of a small or square population equals its own single-galaxy history"""
    for n, nt in gen.shapes(rng, 5, mon.rep):
        p, m, t, lgt0, fb, gs = setup(rng, n, nt)
        a = call_pop(p, m, t, lgt0, fb)
        g = calc_mgas_galpop(gal(p), mah(m), t, lgt0, fb)
        if not mon.ok(np.shape(a) == (n, nt) and np.shape(g.mgash) == (n, nt), "shapes:shape", n=n, nt=nt, got=np.shape(a)):
            continue
        for i in range(n):
            pi, mi = row(p, i), row(m, i)
            close_sfh(mon, a[i], call_single(pi, mi, t, lgt0, fb), pi, mi, t, lgt0, fb, "shapes:sfh", n=n, nt=nt, i=i)
            h = calc_mgas_singlegal(gal(pi), mah(mi), t, lgt0, fb)
            close_gas(mon, type(h)(*(np.asarray(x)[i] for x in g)), h, pi, mi, t, lgt0, fb, "shapes:gas", n=n, nt=nt, i=i)
        mon.state("shape", n, nt)


@CASES(quick=3, thorough=10)
def large(mon, rng):
    """a large population equals its parts"""
    n = (4097, 10007, 30011, 65537, 20000)[mon.rep % 5]
    p, m, t, lgt0, fb, gs = setup(rng, n, 3)
    a = call_pop(p, m, t, lgt0, fb, return_smh=True)
    g = calc_mgas_galpop(gal(p), mah(m), t, lgt0, fb)
    if not mon.ok(np.shape(a.sfh) == (n, 3) and np.shape(g.mgash) == (n, 3), "large:shape", n=n, got=np.shape(a.sfh)):
        return
    for k in range(12):
        c = int(rng.integers(n)) if k > 2 else (0, n // 2, n - 64)[k]
        ix = (c + np.arange(64)) % n  # wraps around the end
        if k == 11:
            ix = rng.permutation(n)[:64]
        pi, mi = tuple(x[ix] for x in p), tuple(x[ix] for x in m)
        b = call_pop(pi, mi, t, lgt0, fb, return_smh=True)
        close_sfh(mon, a.sfh[ix], b.sfh, pi, mi, t, lgt0, fb, "large:sfh", n=n, at=c)
        h = calc_mgas_galpop(gal(pi), mah(mi), t, lgt0, fb)
        close_gas(mon, type(h)(*(np.asarray(x)[ix] for x in g)), h, pi, mi, t, lgt0, fb, "large:gas", n=n, at=c)
    mon.state("large", n)
