"""C07: numerical helpers."""

import numpy as np

from diffstar import utils as du
from diffstar.diffstarpop import utils as pu

from .. import core, gen
from .. import refmodel as R
from ..lib import eps

# the population package's own copies, while it has them
pop_cdf = getattr(pu, "_tw_cuml_lax_kern", du.tw_cuml_jax_kern)
pop_bin = getattr(pu, "_tw_bin_weight_lax_kern", lambda x, s, lo, hi: du.tw_bin_jax_kern(x, s, lo, hi))

CASES = core.Registry()
RULE = (
    "Each execution calls one helper on a generated grid or argument set and compares every returned value with the "
    "mathematical definition evaluated in float64; a class is (helper, regime)."
)
ASSUMPTIONS = ["grids are strictly increasing and representable in float32"]


@CASES(quick=16, thorough=300)
def fstar(mon, rng):
    gk = gen.GRIDS[mon.rep % len(gen.GRIDS)]
    t, gk = gen.grid(rng, int(rng.choice([2, 5, 40, 120])), kind=gk)
    delay = float(np.float32(rng.choice([0.05, 0.3, 1.0, 2.5, 20.0])))
    s = 10 ** rng.normal(0, 1, len(t))
    kind = ("grow", "plateau", "shrink", "zero")[mon.rep % 4]
    if kind == "plateau":
        s[len(t) // 2:] = 0
    m = gen.f32(R.smh(t, s))
    if kind == "shrink":
        m = gen.f32(m * np.where(np.arange(len(t)) > len(t) // 2, 0.5, 1.0))
    elif kind == "zero":
        m = np.zeros(len(t))
    got = np.asarray(du.compute_fstar(t, m, delay), np.float64)
    want = R.fstar(t, m, delay)
    # rounding: mass cancellation, and the shifted abscissa
    slope = np.max(np.abs(np.diff(m) / np.diff(t))) if len(t) > 1 else 0.0
    tol = (8 * eps(mon) * m.max() + 3 * eps(mon) * (t + delay) * slope) / delay / 1e9 + 1e-30
    mon.close(got, want, tol, "fstar:definition", grid=gk, delay=delay, kind=kind)
    mon.ok(got >= 0, "fstar:never-negative", kind=kind)
    # early limit: before delay has passed, the earliest tabulated mass is subtracted
    early = t - delay <= t[0]
    e = np.maximum((m - m[0]) / delay / 1e9, 0)
    mon.close(got[early], e[early], tol[early], "fstar:early-limit", delay=delay)
    if early.all():
        mon.state("fstar", "all-early", kind)
    mon.state("fstar", gk, kind, delay)
    mon.sample(helper="compute_fstar", t=t[:4], m=m[:4], delay=delay, fstar=got[:4])


@CASES(quick=16, thorough=300)
def dt(mon, rng):
    gk = gen.GRIDS[mon.rep % len(gen.GRIDS)]
    t, gk = gen.grid(rng, int(rng.choice([2, 3, 4, 5, 40, 300])), kind=gk)
    if len(t) < 2:
        t = np.array([1.0, 1.5])
    w = R.dt_bins(t)
    tol = 8 * eps(mon) * np.max(np.abs(t)) + 0 * t
    a = du._get_dt_array(t)
    b = du._jax_get_dt_array(t)
    mon.close(a, w, 1e-12 * np.max(t) + 0 * t, "dt:numpy", grid=gk, n=len(t))
    mon.close(b, w, tol, "dt:jax", grid=gk, n=len(t))
    mid = 0.5 * (t[1:] + t[:-1])
    for nm, x, tl in (("numpy", np.asarray(a, np.float64), 1e-12 * t.max()), ("jax", np.asarray(b, np.float64), tol[0])):
        # the bins tile the line: each inner one is the distance between neighbouring midpoints
        if len(t) > 2:
            mon.close(x[1:-1], np.diff(mid), tl + 0 * x[1:-1], "dt:midpoints-" + nm)
        mon.close(x[0], t[1] - t[0], tl, "dt:first-" + nm)
        mon.close(x.sum(), t[-1] + 0.5 * x[-2] - (t[0] - 0.5 * (t[1] - t[0])), tl * 4 + len(t) * eps(mon) * t.max(), "dt:sum-" + nm)
        mon.ok(x > 0, "dt:positive-" + nm)
    # signed abscissa (gas masses) is allowed in the JAX version
    y = gen.f32(rng.normal(0, 1, len(t)))
    mon.close(du._jax_get_dt_array(y), R.dt_bins(y), 16 * eps(mon) * (1 + np.abs(y).max()) + 0 * y, "dt:jax-signed")
    mon.state("dt", gk, min(len(t), 6))


@CASES(quick=16, thorough=300)
def sigmoid(mon, rng):
    n = 200
    x0 = float(np.float32(rng.uniform(-15, 15)))
    k = float(np.float32(rng.choice([0.01, 0.1, 1.0, 9.0, 50.0, 1e3, -1.0, -4.0])))
    lo, hi = sorted(gen.f32(rng.uniform(-20, 20, 2)))
    if mon.rep % 3 == 1:
        lo, hi = hi, lo
    x = gen.f32(np.concatenate([x0 + rng.normal(0, 3, n) / abs(k), x0 + np.array([0, 1e5, -1e5, 1e-4, -1e-4]) / abs(k)]))
    for nm, f in (("utils", du._sigmoid), ("pop", pu._sigmoid)):
        y = np.asarray(f(x, x0, k, lo, hi), np.float64)
        w = R.sigmoid(x, x0, k, lo, hi)
        tol = abs(hi - lo) * (4 * eps(mon) + np.minimum(1, abs(k) * eps(mon) * (np.abs(x) + abs(x0)) * 0.25)) + 4 * eps(mon) * max(abs(lo), abs(hi))
        mon.close(y, w, tol, "sigmoid:" + nm, x0=x0, k=k, lo=lo, hi=hi)
        mon.ok((y >= min(lo, hi) - 1e-30 - 4 * eps(mon) * (abs(lo) + abs(hi))) & (y <= max(lo, hi) + 4 * eps(mon) * (abs(lo) + abs(hi))), "sigmoid:bounds-" + nm)
        mon.close(f(x0, x0, k, lo, hi), 0.5 * (lo + hi), 4 * eps(mon) * (abs(lo) + abs(hi)), "sigmoid:midpoint-" + nm)
        a = 4 * eps(mon) * (abs(lo) + abs(hi))
        mon.close(f(1e6, x0, abs(k), lo, hi), hi, a, "sigmoid:upper-limit-" + nm)
        mon.close(f(-1e6, x0, abs(k), lo, hi), lo, a, "sigmoid:lower-limit-" + nm)
        mon.ok(np.isfinite(np.asarray(f(np.array([1e30, -1e30]), x0, k, lo, hi))), "sigmoid:no-overflow-" + nm)
    # the inverse on the interior and out to the last values the arithmetic can tell from the limits
    gap = 10 ** rng.uniform(-12 if mon.x64 else -5, -2, n)
    fr = np.concatenate([rng.uniform(0.02, 0.98, n), gap, 1 - gap])
    y = lo + (hi - lo) * fr
    y = y if mon.x64 else gen.f32(y)
    fr = (y - lo) / (hi - lo)
    lnarg = (hi - lo) / (y - lo) - 1  # rounding of the two subtractions, then of the quotient
    drel = eps(mon) * ((abs(lo) + abs(hi) + np.abs(y)) / np.abs(y - lo) + (abs(lo) + abs(hi)) / abs(hi - lo) + 4)
    g = (fr > 0) & (fr < 1)
    g[g] &= (drel * (1 + 1 / np.where(lnarg == 0, np.inf, lnarg)))[g] < 0.02
    y, fr, lnarg, drel = y[g], fr[g], lnarg[g], drel[g]
    mon.ok(len(y) > n // 4, "inverse-sigmoid:enough")
    w = R.inv_sigmoid(y, x0, k, lo, hi)
    tol = 8 * drel * (1 + 1 / lnarg) / abs(k) + 4 * eps(mon) * (abs(x0) + np.abs(w))
    mon.state("inverse-sigmoid", int(np.log10(fr.min())), int(np.log10((1 - fr).min())))
    for nm, f in (("utils", du._inverse_sigmoid), ("pop", pu._inverse_sigmoid)):
        z = np.asarray(f(y, x0, k, lo, hi), np.float64)
        mon.close(z, w, tol, "inverse-sigmoid:" + nm, x0=x0, k=k, lo=lo, hi=hi)
    # algebraic cousin
    y = np.asarray(du.sigmoid_poly(x, x0, k, lo, hi), np.float64)
    arg = np.clip(k * (x - x0), -1e15, 1e15)
    w = lo + (hi - lo) * (0.5 * arg / np.sqrt(1 + arg**2) + 0.5)
    tol = abs(hi - lo) * (6 * eps(mon) + np.minimum(1, abs(k) * eps(mon) * (np.abs(x) + abs(x0)))) + 6 * eps(mon) * max(abs(lo), abs(hi))
    mon.close(y, w, tol, "sigmoid-poly", x0=x0, k=k, lo=lo, hi=hi)
    mon.state("sigmoid", k, "inverted" if lo > hi else "upright")


@CASES(quick=12, thorough=200)
def triweight(mon, rng):
    import jax

    n = 120
    m = float(np.float32(rng.normal(0, 10)))
    h = float(np.float32(10 ** rng.uniform(-2, 1)))
    x = gen.f32(m + h * np.concatenate([rng.uniform(-3.5, 3.5, n), [-3.001, 3.001, 0, -50, 50, 2.999, -2.999]]))
    z = (x - m) / h
    tolx = 20 * eps(mon) + 0.4 * 3 * eps(mon) * (np.abs(x) + abs(m)) / h
    f = jax.vmap(du.tw_cuml_jax_kern, in_axes=(0, None, None))
    y = np.asarray(f(x, m, h), np.float64)
    mon.close(y, R.tw_cdf(z), tolx, "tw:cdf", m=m, h=h)
    mon.ok((y >= -tolx) & (y <= 1 + tolx), "tw:bounds")
    out = np.abs(z) > 3 + 1e-2 + 10 * eps(mon) * (np.abs(x) + abs(m)) / h
    mon.ok((np.abs(y - (z > 0)) <= 20 * eps(mon))[out], "tw:limits", m=m, h=h)
    o = np.argsort(x)
    mon.ok(np.diff(y[o]) >= -2 * tolx.max(), "tw:increasing")
    g = jax.vmap(pop_cdf, in_axes=(0, None, None))
    mon.close(g(x, m, h), R.tw_cdf(z), tolx, "tw:cdf-pop", m=m, h=h)
    # bins
    lo = gen.f32(m + h * rng.uniform(-4, 4, 60))
    hi = gen.f32(lo + h * np.abs(rng.normal(0, 2, 60)))
    tb = 40 * eps(mon) + 0.4 * 6 * eps(mon) * (np.abs(lo) + np.abs(hi) + abs(m)) / h
    b = np.asarray(jax.vmap(du.tw_bin_jax_kern, in_axes=(None, None, 0, 0))(m, h, lo, hi), np.float64)
    w = R.tw_cdf((hi - m) / h) - R.tw_cdf((lo - m) / h)
    mon.close(b, w, tb, "tw:bin", m=m, h=h)
    mon.ok((b >= -tb) & (b <= 1 + tb), "tw:bin-bounds")
    c = np.asarray(jax.vmap(pop_bin, in_axes=(None, None, 0, 0))(m, h, lo, hi), np.float64)
    mon.close(c, w, tb, "tw:bin-pop", m=m, h=h)
    mon.close(du.tw_bin_jax_kern(m, h, m - 10 * h, m + 10 * h), 1.0, 1e-6, "tw:whole-line")
    mon.close(du.tw_cuml_jax_kern(m, m, h), 0.5, 2 * eps(mon), "tw:centre")
    mon.state("tw", "narrow" if h < 0.1 else "wide", "far" if abs(m) > 10 else "near")


@CASES(quick=10, thorough=200)
def interp(mon, rng):
    nt = int(rng.choice([2, 3, 10, 200]))
    xt = gen.f32(np.cumsum(10 ** rng.uniform(-2, 0.5, nt)) + rng.normal(0, 3))
    xt = xt[np.concatenate([[True], np.diff(xt) > 1e-3])]
    if len(xt) < 2:
        xt = np.array([0.0, 1.0])
    yt = gen.f32(rng.normal(0, 10 ** rng.uniform(-2, 3), len(xt)))
    x = gen.f32(rng.uniform(xt[0], xt[-1], 60))
    x = np.clip(np.concatenate([x, xt]), xt[0], xt[-1])
    ix = np.clip(np.searchsorted(xt, x), 1, len(xt) - 1)
    w = np.interp(x, xt, yt)
    sl = np.abs(np.diff(yt) / np.diff(xt))[ix - 1]
    tol = 8 * eps(mon) * (np.abs(yt).max() + sl * (np.abs(x) + np.abs(xt).max()))
    mon.close(du.jax_np_interp(x, xt, yt, ix), w, tol, "interp", n=len(xt))
    X = np.stack([x, x[::-1]])
    XT = np.stack([xt, xt])
    IX = np.stack([ix, ix[::-1]])
    v = np.asarray(pu.jax_np_interp_vmap(X, XT, yt, IX), np.float64)
    mon.close(v, np.stack([w, w[::-1]]), np.stack([tol, tol[::-1]]), "interp:vmap")
    mon.state("interp", min(len(xt), 4))


@CASES(quick=12, thorough=200)
def trapz(mon, rng):
    n = int(rng.choice([1, 2, 3, 50, 1000]))
    x = gen.f32(np.cumsum(10 ** rng.uniform(-3, 0.5, n)) + rng.normal(0, 3))
    y = gen.f32(rng.normal(0, 10 ** rng.uniform(-3, 5), n))
    if mon.rep % 2:
        y = np.abs(y)
    d = np.diff(x)
    w = np.concatenate([[0], np.cumsum(d * 0.5 * (y[1:] + y[:-1]))])
    sc = np.concatenate([[0], np.cumsum((d + 2 * np.abs(x[1:])) * (np.abs(y[1:]) + np.abs(y[:-1])))])
    sc2 = np.concatenate([[0], np.cumsum(d * (np.abs(y[1:]) + np.abs(y[:-1])))])
    tol = 4 * eps(mon) * sc + (n + 20) * eps(mon) * sc2 + 1e-300
    mon.close(du.cumtrapz(x, y), w, tol, "cumtrapz", n=n)
    mon.close(np.asarray(du.cumtrapz(x, y))[0], 0.0, 0.0, "cumtrapz:starts-at-zero")
    mon.state("cumtrapz", n, "signed" if mon.rep % 2 == 0 else "positive")


@CASES(quick=6, thorough=60)
def get_1d(mon, rng):
    n = int(rng.choice([1, 2, 7, 100]))
    a = gen.f32(rng.normal(0, 1, n))
    args = [a, 3.5, np.array([2.0]), 7, rng.integers(0, 9, n), np.float32(1.25)]
    out = du.get_1d_arrays(*args)
    mon.ok(len(out) == len(args), "get1d:count")
    for x, y in zip(args, out):
        mon.ok(np.shape(y) == (n,), "get1d:shape", got=np.shape(y))
        mon.same(np.asarray(y, np.float64), np.broadcast_to(np.asarray(x, np.float64), (n,)), "get1d:values")
        mon.ok(np.asarray(y).dtype.kind == np.asarray(x).dtype.kind, "get1d:kind")
    out[0][0] = 99.0
    mon.ok(args[0][0] != 99.0, "get1d:no-alias")
    if n > 1:
        try:
            du.get_1d_arrays(a, np.zeros(n + 1))
            mon.ok(False, "get1d:rejects-mismatch")
        except AssertionError:
            mon.ok(True, "get1d:rejects-mismatch")
    mon.state("get1d", n)


@CASES(quick=10, thorough=100)
def whole_numbers(mon, rng):
    """whole-number arguments (integer arrays) give the value of the same real numbers, or are refused with a TypeError"""
    n = int(rng.choice([2, 3, 5, 12]))
    dt_ = (np.int32, np.int64)[mon.rep % 2]
    t = np.sort(rng.choice(np.arange(0, 40), n, replace=False)) + (mon.rep % 3)
    tf = t.astype(float)
    y = rng.integers(-50, 50, n)
    yf = y.astype(float)
    x0, k, lo, hi = int(rng.integers(-3, 20)), int(rng.choice([1, 2, -1])), *sorted(rng.choice(np.arange(-60, 70), 2, replace=False))
    lo, hi = int(lo), int(hi)
    m, h, a = int(rng.integers(-5, 5)), int(rng.integers(1, 5)), int(rng.integers(-8, 8))
    yin = np.arange(lo + 1, hi) if hi - lo > 1 else np.array([lo])
    e = 1.2e-7 if dt_ is np.int32 else eps(mon)  # int32 arrays promote to float32 in JAX, whatever the mode
    jt = t.astype(dt_)
    e_tw = 20 * e

    def fstar_of(tt):
        ms = R.smh(np.maximum(tf, 0.5), np.abs(yf))
        return du.compute_fstar(tt, gen.f32(ms), 2 if tt is jt else 2.0)

    checks = [
        ("dt:numpy", lambda: du._get_dt_array(jt), R.dt_bins(tf), 1e-12 * 50),
        ("dt:jax", lambda: du._jax_get_dt_array(jt), R.dt_bins(tf), 8 * e * 50),
        ("cumtrapz:x", lambda: du.cumtrapz(jt, yf), None, 0),
        ("cumtrapz:y", lambda: du.cumtrapz(tf, y.astype(dt_)), None, 0),
        ("cumtrapz:xy", lambda: du.cumtrapz(jt, y.astype(dt_)), None, 0),
        ("sigmoid:utils", lambda: du._sigmoid(jt, x0, k, lo, hi), R.sigmoid(tf, x0, k, lo, hi), 300 * e * (abs(lo) + abs(hi))),
        ("sigmoid:pop", lambda: pu._sigmoid(jt, x0, k, lo, hi), R.sigmoid(tf, x0, k, lo, hi), 300 * e * (abs(lo) + abs(hi))),
        ("sigmoid:limits", lambda: du._sigmoid(tf, x0, float(k), lo, hi), R.sigmoid(tf, x0, k, lo, hi), 300 * e * (abs(lo) + abs(hi))),
        ("sigmoid_poly", lambda: du.sigmoid_poly(jt, x0, k, lo, hi), lo + (hi - lo) * (0.5 * k * (tf - x0) / np.sqrt(1 + (k * (tf - x0)) ** 2) + 0.5), 30 * e * (abs(lo) + abs(hi))),
        ("tw:cdf", lambda: du.tw_cuml_jax_kern(a, m, h), R.tw_cdf(np.array((a - m) / h)), e_tw),
        ("tw:cdf-pop", lambda: pop_cdf(a, m, h), R.tw_cdf(np.array((a - m) / h)), e_tw),
        ("tw:bin", lambda: du.tw_bin_jax_kern(m, h, a, a + 2), R.tw_cdf(np.array((a + 2 - m) / h)) - R.tw_cdf(np.array((a - m) / h)), 2 * e_tw),
        ("fstar:time", lambda: fstar_of(jt), np.asarray(fstar_of(tf), np.float64), 0),
    ]
    if hi - lo > 1:
        checks += [
            ("inverse-sigmoid:utils", lambda: du._inverse_sigmoid(yin.astype(dt_), x0, k, lo, hi), R.inv_sigmoid(yin.astype(float), x0, k, lo, hi), None),
            ("inverse-sigmoid:pop", lambda: pu._inverse_sigmoid(yin.astype(dt_), x0, k, lo, hi), R.inv_sigmoid(yin.astype(float), x0, k, lo, hi), None),
        ]
    ct = np.concatenate([[0], np.cumsum(np.diff(tf) * 0.5 * (yf[1:] + yf[:-1]))])
    for nm, f, want, tol in checks:
        try:
            got = np.asarray(f(), np.float64)
        except TypeError:
            mon.ok(True, "whole:refused")
            mon.state("whole", nm, "refused")
            continue
        if want is None:
            want, tol = ct, 40 * e * 2000
        if tol is None:
            tol = 300 * e * (abs(x0) + 10) * (abs(lo) + abs(hi) + 1)
        if nm.startswith("fstar"):
            tol = 64 * e * (np.abs(want).max() + 50 * 80) + 1e-30
        mon.close(got, want, tol, "whole:" + nm, t=t, y=y, x0=x0, k=k, lo=lo, hi=hi, m=m, h=h, a=a)
        mon.state("whole", nm, np.dtype(dt_).name)
    xq = rng.integers(t[0], t[-1] + 1, 6)
    ix = np.clip(np.searchsorted(t, xq), 1, n - 1)
    mon.close(du.jax_np_interp(xq, jt, y.astype(dt_), ix), np.interp(xq, tf, yf), 60 * e * 100, "whole:interp")
