"""C03: the quenching factor."""

import numpy as np

from diffstar import calc_sfh_galpop
from diffstar.kernels.quenching_kernels import _quenching_kern, _quenching_kern_u_params

from .. import core, gen
from .. import refmodel as R
from ..lib import call_pop, call_single, eps, gal, lg, mah, row, tol_lgsfr

CASES = core.Registry()
RULE = (
    "Each execution observes the ratio of SFR with and without quenching (and the published kernel) along a dense "
    "time grid for generated quenching parameters; a class is (observation point, galaxy stratum, phase of the "
    "event: before, falling, bottom, rising, after)."
)
ASSUMPTIONS = ["halos are massive enough for the SFR floor not to act (checked per value)"]


def tol_q(mon, q, lgt):
    d = 4e-15 if mon.x64 else 3e-7
    q0 = R.lg_quench(lgt, *q)
    s = np.zeros_like(q0)
    for a in (d, -d, d / 3, -d / 3):
        s = np.maximum(s, np.abs(R.lg_quench(lgt + a, *q) - q0))
    return 2 * s + (1e-12 if mon.x64 else 4e-6)


def judge(mon, lf, q, lgt, oracle, /, exact=None, **kw):
    """lf: observed log10 factor (n, nt); q 4 columns (n,1)"""
    lg_qt, ql, drop, rejuv = q
    tol = tol_q(mon, q, lgt)
    mon.close(lf, R.lg_quench(lgt, *q), tol, oracle + ":model", **kw)
    half = 0.5 * 10.0**ql
    y = (lgt - lg_qt) / half  # -1 start, 0 bottom, +1 end
    y = np.broadcast_to(y, lf.shape)
    mon.ok(lf <= tol, oracle + ":<=1", **kw)
    mon.ok(lf >= drop - tol, oracle + ":>=drop", **kw)
    before = y < -1 - 1e-2
    after = y > 1 + 1e-2
    if exact is not None:
        mon.ok(exact[before], oracle + ":is-1-before", **kw)
    mon.close(lf[after], np.broadcast_to(rejuv, lf.shape)[after], tol[after], oracle + ":rejuv-after", **kw)
    d = np.diff(lf, axis=1)
    tt = tol[:, 1:] + tol[:, :-1]
    fall = y[:, 1:] <= 0
    rise = y[:, :-1] >= 0
    mon.ok((d <= tt)[fall], oracle + ":falls", **kw)
    mon.ok((d >= -tt)[rise], oracle + ":rises", **kw)
    # symmetric halves: half the drop is reached half way down (triweight is symmetric)
    for nm, msk in (("before", before), ("falling", (~before) & (y < 0)), ("rising", (y >= 0) & ~after), ("after", after)):
        if msk.any():
            mon.state(oracle, nm)


@CASES(quick=6, thorough=60)
def ratio(mon, rng):
    """observed through the public population function"""
    n = 60
    lgt0, fb, t0, cl = gen.cosmo(rng)
    p, gs = gen.galaxy(rng, n)
    lo = np.concatenate([np.linspace(-0.7, 1.6, 120), ])
    t = np.unique(gen.f32(10**lo))
    m, _ = gen.halo(rng, n, t, t0)
    m = list(m)
    m[0] = rng.uniform(12.5, 15.0, n)
    p, m = gen.f32t(p), gen.f32t(m)
    a = np.asarray(call_pop(p, m, t, lgt0, fb), np.float64)
    p0 = p[:6] + (np.zeros(n), np.zeros(n))
    b = np.asarray(call_pop(p0, m, t, lgt0, fb), np.float64)
    good = (a > 1e-13).all(1) & (b > 1e-13).all(1)
    mon.ok(good.sum() > 5, "ratio:enough")
    a, b = a[good], b[good]
    q = [np.asarray(x)[good][:, None] for x in p[4:]]
    judge(mon, lg(a / b), q, np.log10(t), "ratio", exact=np.abs(a - b) <= 30 * eps(mon) * b)
    for s in set(gs):
        mon.state("ratio", s, cl)
    mon.sample(q=row(p, 0)[4:], lg_factor=lg(a / b)[0][::20])


@CASES(quick=20, thorough=300)
def kernel(mon, rng):
    """the published kernel on a grid that zooms on the event"""
    p, gs = gen.galaxy(rng, 1)
    q = row(gen.f32t(p), 0)[4:]
    w = 10.0 ** q[1]
    x = np.concatenate([np.linspace(-1.3, 1.3, 151) * w / 2 + q[0], np.linspace(-3, 3, 50), [q[0]]])
    lgt = np.unique(gen.f32(x))
    f = np.asarray(_quenching_kern(lgt, q[0], 10.0 ** q[1], q[2], q[3]), np.float64)
    qq = [np.array([[v]]) for v in q]
    judge(mon, lg(f)[None], qq, lgt, "kernel", exact=(np.abs(f - 1) <= 30 * eps(mon))[None], q=q)
    c = float(_quenching_kern(q[0], q[0], 10.0 ** q[1], q[2], q[3]))
    mon.close(lg(c), q[2], 10 * eps(mon) * 10, "kernel:bottom-is-drop", q=q)
    mon.state("kernel", gs[0], "wide" if w > 0.3 else "narrow" if w < 0.01 else "mid")


@CASES(quick=8, thorough=80)
def u_kernel(mon, rng):
    """unbounded-parameter version is the bounded one behind the published mapping"""
    u = gen.f32(np.array([rng.normal(1.05, 2), rng.normal(-1.5, 2), rng.normal(-1.5, 2), rng.normal(-1.5, 2)]))
    full = np.concatenate([[11.25, -10, 2.5, -2.5], u])
    q = [float(x) for x in R.bound_galaxy(list(full))[4:]]
    lgt = gen.f32(np.linspace(-1, 2.0, 120))
    f = _quenching_kern_u_params(lgt, *u)
    d = 1e-12 if mon.x64 else 2e-6
    tol = tol_q(mon, q, lgt)
    q0 = R.lg_quench(lgt, *q)
    for k in range(4):
        for s in (d, -d):
            q2 = list(q)
            q2[k] += s
            tol = tol + np.abs(R.lg_quench(lgt, *q2) - q0)
    mon.close(lg(f), q0, tol, "u_kernel:model", q=q)
    mon.state("u_kernel", "deep" if q[2] < -1.5 else "shallow")


@CASES(quick=3, thorough=30)
def unquenched(mon, rng):
    """documented unquenched parameters: no suppression over the age of the Universe"""
    from diffstar import defaults as d

    n = 20
    lgt0, fb, t0, cl = gen.cosmo(rng)
    t = gen.f32(np.linspace(0.05, 20.0, 100))
    m, _ = gen.halo(rng, n, t, t0)
    p, _ = gen.galaxy(rng, n)
    uq = tuple(float(x) for x in d.DEFAULT_Q_PARAMS_UNQUENCHED)
    mon.close([float(x) for x in d.DEFAULT_Q_U_PARAMS_UNQUENCHED], R.UNQUENCHED_U, 0, "unquenched:published-u")
    want = [float(x) for x in R.bound_galaxy([11.25, -10, 2.5, -2.5, 5, 5, 5, 5])[4:]]
    mon.close(uq, want, 1e-5, "unquenched:published")
    p, m = gen.f32t(p), gen.f32t(m)
    pu = p[:4] + tuple(np.full(n, x) for x in uq)
    p0 = p[:6] + (np.zeros(n), np.zeros(n))
    a, b = call_pop(pu, m, t, lgt0, fb), call_pop(p0, m, t, lgt0, fb)
    mon.close(a, b, 30 * eps(mon) * np.asarray(b, np.float64), "unquenched:no-suppression")
    i = int(rng.integers(n))
    s = call_single(row(pu, i), row(m, i), t, lgt0, fb)
    mon.close(lg(s), lg(b)[i], tol_lgsfr(mon, row(p0, i), row(m, i), t, lgt0, fb), "unquenched:single")
    f = np.asarray(_quenching_kern(np.log10(t), uq[0], 10 ** uq[1], uq[2], uq[3]))
    mon.ok(np.abs(f - 1) <= 30 * eps(mon), "unquenched:kernel")
    mon.state("unquenched", cl)


@CASES(quick=3, thorough=30)
def only(mon, rng):
    """quenching parameters act through the factor alone: same factor for every halo and main sequence"""
    n = 30
    lgt0, fb, t0, cl = gen.cosmo(rng)
    t = gen.f32(np.logspace(-0.5, 1.3, 60))
    m, _ = gen.halo(rng, n, t, t0)
    m = list(m)
    m[0] = rng.uniform(12.5, 15.0, n)
    p, _ = gen.galaxy(rng, n)
    q1, _ = gen.galaxy(rng, 1)
    q1 = row(gen.f32t(q1), 0)[4:]
    p, m = gen.f32t(p), gen.f32t(m)
    pa = p[:4] + tuple(np.full(n, x) for x in q1)
    pb = p[:4] + (np.full(n, q1[0]), np.full(n, q1[1]), np.zeros(n), np.zeros(n))
    a, b = np.asarray(call_pop(pa, m, t, lgt0, fb), np.float64), np.asarray(call_pop(pb, m, t, lgt0, fb), np.float64)
    g = (a > 1e-13) & (b > 1e-13)
    f = lg(_quenching_kern(np.log10(t), q1[0], 10 ** q1[1], q1[2], q1[3]))
    tol = np.broadcast_to(tol_q(mon, q1, np.log10(t)), a.shape)
    mon.close(lg(a / b)[g], np.broadcast_to(f, a.shape)[g], 2 * tol[g], "only:factor", q=q1)
    mon.state("only", cl)
    assert calc_sfh_galpop and gal and mah
