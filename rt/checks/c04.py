"""C04: causality and the freeze at the halo's peak."""

import numpy as np

from diffstar import calc_mgas_galpop, calc_mgas_singlegal

from .. import core, gen
from .. import refmodel as R
from ..lib import call_pop, call_single, eps, gal, lg, mah, row, tol_lgsfr

CASES = core.Registry()
RULE = (
    "Each execution changes only later causes (peak time, quenching event) or looks after the peak and compares "
    "two real histories value by value; a class is (perturbation, entry point, where the peak lies)."
)
ASSUMPTIONS = ["grid times are representable in float32, so 'before' and 'after' are unambiguous"]


def equal(mon, a, b, oracle, /, scale=0.0):
    """equal up to the rounding of a few operations; scale: size of the terms a difference is made of"""
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    mon.close(a, b, 30 * eps(mon) * (np.maximum(np.abs(a), np.abs(b)) + scale), oracle)


def base(rng, n):
    lgt0, fb, t0, cl = gen.cosmo(rng)
    t = np.unique(gen.f32(np.concatenate([np.linspace(0.2, 1.3 * t0, 40), rng.uniform(0.2, t0, 10)])))
    m, _ = gen.halo(rng, n, t, t0)
    p, gs = gen.galaxy(rng, n)
    return gen.f32t(p), [*gen.f32t(m)], t, lgt0, fb, t0, gs


@CASES(quick=6, thorough=60)
def peak_later(mon, rng):
    n = 20
    p, m, t, lgt0, fb, t0, gs = base(rng, n)
    tp = gen.f32(rng.uniform(1.0, t0, n))
    on = rng.random(n) < 0.3
    tp[on] = t[rng.integers(3, len(t), on.sum())]
    m[4] = tp
    m2 = list(m)
    m2[4] = gen.f32(tp + rng.uniform(0.01, 10, n))
    a, b = call_pop(p, m, t, lgt0, fb, return_smh=True), call_pop(p, m2, t, lgt0, fb, return_smh=True)
    early = t[None, :] <= tp[:, None]
    tol = tol_lgsfr(mon, p, m, t, lgt0, fb)
    equal(mon, np.asarray(a.sfh)[t[None] < tp[:, None]], np.asarray(b.sfh)[t[None] < tp[:, None]], "peak_later:sfh-before")
    mon.close(lg(a.sfh)[early], lg(b.sfh)[early], tol[early], "peak_later:sfh")
    pre = t[None] < tp[:, None]
    equal(mon, np.asarray(a.smh)[pre], np.asarray(b.smh)[pre], "peak_later:smh")
    g, h = calc_mgas_galpop(gal(p), mah(m), t, lgt0, fb), calc_mgas_galpop(gal(p), mah(m2), t, lgt0, fb)
    equal(mon, np.asarray(g.mgash)[pre], np.asarray(h.mgash)[pre], "peak_later:gas", scale=np.asarray(g.smh)[pre])
    equal(mon, np.asarray(g.sfh)[pre], np.asarray(h.sfh)[pre], "peak_later:gas-sfh")
    # the change is real: later values differ
    diff = ~early & (np.abs(lg(a.sfh) - lg(b.sfh)) > 1e-3)
    mon.state("peak_later", "changed" if diff.any() else "unchanged")
    i = int(rng.integers(n))
    s1, s2 = call_single(row(p, i), row(m, i), t, lgt0, fb), call_single(row(p, i), row(m2, i), t, lgt0, fb)
    equal(mon, np.asarray(s1)[pre[i]], np.asarray(s2)[pre[i]], "peak_later:single")
    mon.state("peak_later", "single", "on-grid" if on[i] else "off-grid")
    mon.sample(tpeak=tp[:4], later=m2[4][:4], nt_compared=int(early.sum()))


@CASES(quick=6, thorough=60)
def frozen(mon, rng):
    """after the peak only quenching changes the SFR"""
    n = 24
    p, m, t, lgt0, fb, t0, gs = base(rng, n)
    m[0] = gen.f32(rng.uniform(12.0, 15, n))
    kind = ("early", "mid", "ongrid")[mon.rep % 3]
    tp = dict(early=rng.uniform(0.3, 1.0, n), mid=rng.uniform(2, 8, n), ongrid=t[rng.integers(2, len(t) - 5, n)])[kind]
    m[4] = gen.f32(tp)
    pm = p[:6] + (np.zeros(n), np.zeros(n))
    a = np.asarray(call_pop(pm, m, t, lgt0, fb), np.float64)
    late = t[None] >= m[4][:, None]
    for i in range(n):
        v = a[i, late[i]]
        mon.ok(np.abs(v - v[-1]) <= 8 * eps(mon) * v[-1], "frozen:constant", i=i, tpeak=m[4][i])
    want = R.lg_sfr(R.col(pm), R.col(m), m[4][:, None], lgt0, fb)[:, 0]
    want = np.maximum(want, -14)
    mon.close(lg(a[:, -1]), want, tol_lgsfr(mon, pm, m, t, lgt0, fb)[:, -1], "frozen:peak-value")
    b = np.asarray(call_pop(p, m, t, lgt0, fb), np.float64)
    q = R.lg_quench(np.log10(t), *R.col(p[4:]))
    ok = late & (b > 1e-13) & (a > 1e-13)
    mon.close(lg(b / a)[ok], q[ok], tol_lgsfr(mon, p, m, t, lgt0, fb)[ok], "frozen:quench-only")
    i = int(rng.integers(n))
    s = np.asarray(call_single(row(pm, i), row(m, i), t, lgt0, fb))
    mon.ok(np.abs(s[late[i]] - s[-1]) <= 8 * eps(mon) * s[-1], "frozen:single-constant")
    g = calc_mgas_galpop(gal(p), mah(m), t, lgt0, fb)
    acc = np.asarray(g.mgash, np.float64) + np.asarray(g.smh, np.float64)
    # nothing accretes in the intervals that start after the peak
    strictly = t[None] > m[4][:, None]
    d = np.diff(acc, axis=1)
    mon.ok(np.abs(d[strictly[:, :-1]]) <= (6 * eps(mon) * (acc[:, 1:] + np.asarray(g.smh)[:, 1:]))[strictly[:, :-1]], "frozen:no-accretion")
    gs1 = calc_mgas_singlegal(gal(row(p, i)), mah(row(m, i)), t, lgt0, fb)
    acc1 = np.asarray(gs1.mgash, np.float64) + np.asarray(gs1.smh, np.float64)
    d1 = np.diff(acc1)[strictly[i, :-1]]
    mon.ok(np.abs(d1) <= 6 * eps(mon) * (acc1.max() + np.asarray(gs1.smh).max()) + 1e-12, "frozen:no-accretion-single")
    mon.state("frozen", kind)


@CASES(quick=6, thorough=60)
def quench_later(mon, rng):
    """an event that has not begun leaves no trace"""
    n = 24
    p, m, t, lgt0, fb, t0, gs = base(rng, n)
    m[0] = gen.f32(rng.uniform(12.0, 15, n))
    q2, _ = gen.galaxy(rng, n)
    q2 = gen.f32t(q2)
    pb = p[:4] + q2[4:]
    start = np.minimum(p[4] - 0.5 * 10 ** p[5] * 1.01, q2[4] - 0.5 * 10 ** q2[5] * 1.01)
    pre = np.log10(t)[None] < start[:, None] - 1e-6
    a, b = call_pop(p, m, t, lgt0, fb, return_smh=True), call_pop(pb, m, t, lgt0, fb, return_smh=True)
    equal(mon, np.asarray(a.sfh)[pre], np.asarray(b.sfh)[pre], "quench_later:sfh")
    equal(mon, np.asarray(a.smh)[pre], np.asarray(b.smh)[pre], "quench_later:smh")
    g, h = calc_mgas_galpop(gal(p), mah(m), t, lgt0, fb), calc_mgas_galpop(gal(pb), mah(m), t, lgt0, fb)
    equal(mon, np.asarray(g.mgash)[pre], np.asarray(h.mgash)[pre], "quench_later:gas", scale=np.asarray(g.smh)[pre])
    i = int(np.argmax(pre.sum(1)))
    s1, s2 = call_single(row(p, i), row(m, i), t, lgt0, fb), call_single(row(pb, i), row(m, i), t, lgt0, fb)
    equal(mon, np.asarray(s1)[pre[i]], np.asarray(s2)[pre[i]], "quench_later:single")
    # rejuvenation matters only after the bottom
    pc = p[:7] + (gen.f32(p[6] * rng.uniform(0, 1, n)),)
    c = np.asarray(call_pop(pc, m, t, lgt0, fb))
    fall = np.log10(t)[None] < p[4][:, None] - 1e-6
    equal(mon, c[fall], np.asarray(a.sfh)[fall], "quench_later:rejuv")
    mon.state("quench_later", "some" if pre.any() else "none", "rejuv" if fall.any() else "none")


@CASES(quick=3, thorough=30)
def tail(mon, rng):
    """appending later times to the grid changes no earlier value"""
    n = 8
    p, m, t, lgt0, fb, t0, gs = base(rng, n)
    k = int(rng.integers(5, len(t) - 3))
    a, b = call_pop(p, m, t, lgt0, fb, return_smh=True), call_pop(p, m, t[:k], lgt0, fb, return_smh=True)
    tol = tol_lgsfr(mon, p, m, t, lgt0, fb)[:, :k]
    mon.close(lg(b.sfh), lg(a.sfh)[:, :k], tol, "tail:sfh")
    rel = np.expm1(np.log(10) * np.minimum(tol, 0.3))
    sm = np.asarray(a.smh, np.float64)[:, :k]
    mon.close(b.smh, sm, R.smh(t[:k], rel * np.asarray(a.sfh, np.float64)[:, :k]) + 100 * eps(mon) * sm, "tail:smh")
    mon.state("tail", len(t) - k)
