"""C10: population means and scatters."""

import jax
import numpy as np

from diffstar.diffstarpop import SIMULATION_FIT_PARAMS, DiffstarPopParams
from diffstar.diffstarpop import utils as pu
from diffstar.diffstarpop.kernels import sfh_pdf_mgash as sp
from diffstar.diffstarpop.kernels.diffstarpop_mgash import _diffstarpop_means_covs, _diffstarpop_means_covs_cen

from .. import core, gen
from .. import refmodel as R
from ..lib import eps

CASES = core.Registry()
RULE = (
    "Each execution evaluates means and covariances of one generated population-parameter set over a batch of halo masses "
    "and peak times; a class is (kind of parameter set, clipping regime seen, entry point)."
)
ASSUMPTIONS = ["documented scalings re-implemented in float64; parameters strictly inside their published bounds"]
KINDS = ("uniform", "near", "mid", "zeroslope", "gentle", "edge", "ship")
Y_FIELDS = ("ulgm", "ulgy", "ul", "uh", "uqt", "uqs", "udrop", "urej")


def params(rng, kind):
    if kind == "ship":
        k = list(SIMULATION_FIT_PARAMS)[rng.integers(5)]
        d = {n: float(np.float32(x)) for n, x in SIMULATION_FIT_PARAMS[k]._asdict().items()}
    elif kind == "edge":
        d = {}
        for k, (lo, hi) in R.ALL_POP_BOUNDS.items():
            f = (0.002, 0.998, rng.uniform(0.1, 0.9))[rng.integers(3)]
            d[k] = float(np.float32(lo + f * (hi - lo)))
    elif kind == "near":
        from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_PARAMS as D

        d = gen.pop_dict(rng, "near", {k: float(v) for k, v in D._asdict().items()})
    else:
        d = gen.pop_dict(rng, kind)
    return d, DiffstarPopParams(**d)


def tol_fn(mon, f, x, scale):
    """|f(x+-dx)-f(x)| with dx the float rounding of the inputs, plus rounding of the result"""
    dx = 1e-14 if mon.x64 else 4e-6
    w = f(x)
    s = np.maximum(np.abs(f(x + dx) - w), np.abs(f(x - dx) - w))
    return w, 4 * s + scale * (40 * eps(mon))


def sens(mon, D, x, tp):
    """tolerance by perturbing every input by its rounding"""
    e = 4 * eps(mon)
    ms, q = R.pop_means(D, x, tp)
    sm, sq, sqq = R.pop_stds(D, x)
    base = [ms, q, sm, sq, sqq]
    tol = [np.full(b.shape, 60 * eps(mon) * 20.0) for b in base]
    for s in (1, -1):
        D2 = {k: v * (1 + s * e) for k, v in D.items()}
        for xx, tt, DD in ((x * (1 + s * e), tp, D), (x, tp * (1 + s * e), D), (x * (1 - s * e), tp, D2)):
            m2, q2 = R.pop_means(DD, xx, tt)
            for t, a, b in zip(tol, base, (m2, q2, *R.pop_stds(DD, xx))):
                t += 3 * np.abs(a - b)
    return base, tol


MODELS = {}


def batched(fn, nargs):
    if fn not in MODELS:
        MODELS[fn] = jax.jit(jax.vmap(fn, in_axes=(None,) + (0,) * nargs))
    return MODELS[fn]


@CASES(quick=21, thorough=350)
def model(mon, rng):
    kind = KINDS[mon.rep % len(KINDS)]
    D, P = params(rng, kind)
    n = 64
    x = gen.f32(np.concatenate([rng.uniform(8, 16, n - 3), [12.5, 11.0, 14.0]]))
    tp = gen.f32(rng.uniform(0.1, 20, n))
    (ms, q, sm, sq, sqq), (tms, tq, tsm, tsq, tsqq) = sens(mon, D, x, tp)
    which = mon.rep % 3
    if which == 0:
        out = batched(sp._sfh_pdf_scalar_kernel, 2)(P, x, tp)
    elif which == 1:
        up, lgmu, lgmh, gyr = gen.satellites(rng, n)
        out = batched(_diffstarpop_means_covs, 5)(P, x, tp, lgmu, lgmh, gyr)
    else:
        out = batched(_diffstarpop_means_covs_cen, 2)(P, x, tp)
    tag = ("pdf", "full", "cen")[which]
    fc, fs, mu_m, mu_q, cm, cq, cqq = out
    mon.close(np.stack(mu_m, -1), ms, tms, f"{tag}:mean-ms", kind=kind)
    mon.close(np.stack(mu_q, -1), q, tq, f"{tag}:mean-q", kind=kind)
    for nm, c, s, t in (("cov-ms", cm, sm, tsm), ("cov-q-ms", cq, sq, tsq), ("cov-q-q", cqq, sqq, tsqq)):
        c = np.asarray(c, np.float64)
        mon.ok(np.isfinite(c), f"{tag}:{nm}-finite", kind=kind)
        want = np.zeros((n, 4, 4))
        tol = np.zeros((n, 4, 4))
        ii = np.arange(4)
        want[:, ii, ii] = s**2
        tol[:, ii, ii] = 2 * s * t + t**2 + 10 * eps(mon) * s**2
        mon.close(c, want, tol, f"{tag}:{nm}", kind=kind)
        mon.close(c, c.transpose(0, 2, 1), 8 * eps(mon) * np.sqrt(want[:, ii, ii][:, :, None] * want[:, ii, ii][:, None, :]), f"{tag}:{nm}-symmetric")
        mon.ok(np.linalg.eigvalsh(c) > 0, f"{tag}:{nm}-posdef", kind=kind)
    for i, nm in enumerate(("ul", "uh")):
        lo, hi = R.LINE_BOUNDS["mean_" + nm]
        v = ms[:, 2 + i]
        mon.state(kind, tag, nm, "clipped" if ((v < lo + 0.02 * (hi - lo)) | (v > hi - 0.02 * (hi - lo))).any() else "free")
    mon.sample(kind=kind, logmp0=x[:2], mean_q=np.stack(mu_q, -1)[0], std_ms=sm[0])


@CASES(quick=6, thorough=60)
def satellite_blind(mon, rng):
    """means and scatters do not depend on the satellite inputs"""
    D, P = params(rng, KINDS[mon.rep % len(KINDS)])
    n = 40
    x, tp = gen.f32(rng.uniform(10, 15.5, n)), gen.f32(rng.uniform(0.5, 14, n))
    f = batched(_diffstarpop_means_covs, 5)
    _, a1, a2, a3 = gen.satellites(rng, n)
    _, b1, b2, b3 = gen.satellites(rng, n)
    A, B = f(P, x, tp, a1, a2, a3), f(P, x, tp, b1, b2, b3)
    C = f(P, x, tp, np.full(n, np.nan), np.full(n, np.nan), np.full(n, np.nan))
    E = batched(_diffstarpop_means_covs_cen, 2)(P, x, tp)
    for k in range(2, 7):
        a, b, c, e = (np.asarray(o[k] if not isinstance(o[k], tuple) else np.stack(o[k]), np.float64) for o in (A, B, C, E))
        mon.same(a, b, "satellite_blind:other-inputs", item=k)
        mon.same(a, c, "satellite_blind:nan-inputs", item=k)
        mon.close(a, e, 50 * eps(mon) * (1 + np.abs(e)), "satellite_blind:central-kernel", item=k)
    mon.same(A[0], B[0], "satellite_blind:central-fraction")
    mon.state("satellite_blind", mon.rep % len(KINDS))
    # galaxy by galaxy, without batching
    i = int(rng.integers(n))
    o = _diffstarpop_means_covs(P, float(x[i]), float(tp[i]), float(a1[i]), float(a2[i]), float(a3[i]))
    (ms, q, *_), (tms, tq, *_) = sens(mon, D, x[i:i + 1], tp[i:i + 1])
    mon.close([float(v) for v in o[2]], ms[0], tms[0], "satellite_blind:scalar-ms")
    mon.close([float(v) for v in o[3]], q[0], tq[0], "satellite_blind:scalar-q")


@CASES(quick=20, thorough=400)
def clipped(mon, rng):
    """the clipped line itself, all slopes and intercept positions"""
    lo = float(np.float32(rng.uniform(-10, 5)))
    hi = float(np.float32(lo + 10 ** rng.uniform(-1, 1.2)))
    f = float(rng.choice([0.02, 0.5, 0.98, rng.uniform(0.05, 0.95)]))
    y0 = float(np.float32(lo + f * (hi - lo)))
    m = float(np.float32((0.0, rng.normal(0, 1), rng.normal(0, 20), 1e-6, -1e-6)[mon.rep % 5]))
    x0 = float(np.float32(rng.choice([12.5, 0.0, rng.normal(0, 5)])))
    x = gen.f32(x0 + np.concatenate([[0.0], rng.normal(0, 3, 80), rng.uniform(-20, 20, 40)]))
    y = np.asarray(pu.smoothly_clipped_line(x, x0, y0, m, lo, hi), np.float64)
    w = R.clipped_line(x, x0, y0, m, lo, hi)
    tol = np.full(x.shape, 80 * eps(mon) * (abs(lo) + abs(hi) + 1))
    e = 4 * eps(mon)
    yl = y0 + m * (x - x0)
    for s in (1, -1):
        dx = s * (e * (np.abs(x) + abs(x0)))
        tol += 3 * np.abs(R.clipped_line(x + dx, x0, y0, m, lo, hi) - w)
        dy = s * e * (abs(y0) + abs(lo) + abs(hi) + np.abs(yl))
        tol += 3 * np.abs(R.clipped_line(x, x0, y0 + dy, m, lo, hi) - w)
    mon.close(y, w, tol, "clipped:model", x0=x0, y0=y0, m=m, lo=lo, hi=hi)
    mon.ok(np.isfinite(y), "clipped:finite", m=m)
    r = hi - lo
    mon.ok((y >= lo - 2e-3 * r - tol) & (y <= hi + 2e-3 * r + tol), "clipped:bounds", lo=lo, hi=hi)
    free = (yl > lo + 0.02 * (y0 - lo) + 1e-3 * r) & (yl < hi - 0.02 * (hi - y0) - 20 * (y0 - lo) / 2000)
    mon.close(y[free], yl[free], (tol + 2e-3 * r)[free], "clipped:straight-inside", m=m)
    g = np.asarray(jax.vmap(jax.grad(pu.smoothly_clipped_line, argnums=(0, 1, 2, 3, 4, 5)), in_axes=(0,) + (None,) * 5)(
        x.astype(np.float64 if mon.x64 else np.float32), x0, y0, m, lo, hi))
    mon.ok(np.isfinite(g), "clipped:gradient-finite", m=m, y0=y0, lo=lo, hi=hi)
    mon.state("clipped", "m0" if m == 0 else "steep" if abs(m) > 5 else "tiny" if abs(m) < 1e-3 else "mid", round(f, 1))


@CASES(quick=4, thorough=40)
def dependence(mon, rng):
    """each mean/scatter depends on its own parameters only (by name)"""
    D, P = params(rng, "gentle")
    f = batched(sp._sfh_pdf_scalar_kernel, 2)
    n = 16
    x, tp = gen.f32(rng.uniform(10.5, 15, n)), gen.f32(rng.uniform(1, 13.8, n))

    def outs(P):
        o = f(P, x, tp)
        cols = {f"mean_{k}_mseq": np.asarray(o[2][i]) for i, k in enumerate(Y_FIELDS[:4])}
        cols.update({f"mean_{k}_qseq": np.asarray(o[3][i]) for i, k in enumerate(Y_FIELDS[:4])})
        cols.update({f"mean_{k}": np.asarray(o[3][4 + i]) for i, k in enumerate(Y_FIELDS[4:])})
        for i, k in enumerate(Y_FIELDS[:4]):
            cols[f"std_{k}_mseq"] = np.asarray(o[4][:, i, i])
            cols[f"std_{k}_qseq"] = np.asarray(o[5][:, i, i])
        for i, k in enumerate(Y_FIELDS[4:]):
            cols[f"std_{k}"] = np.asarray(o[6][:, i, i])
        cols["frac_quench_cen"], cols["frac_quench_sat"] = np.asarray(o[0]), np.asarray(o[1])
        return cols

    A = outs(P)
    for k in rng.permutation([k for k in R.POP_BOUNDS])[:30]:
        lo, hi = R.POP_BOUNDS[k]
        v = D[k] + 0.11 * (hi - lo) * (1 if D[k] < 0.5 * (lo + hi) else -1)
        B = outs(P._replace(**{k: v}))
        own = "mean_uqt" if k.startswith("delta_uqt") else next(c for c in sorted(A, key=len, reverse=True) if k.startswith(c + "_"))
        for c in A:
            if c == own:
                mon.ok(bool((A[c] != B[c]).any()), "dependence:own-parameter-acts", param=k, output=c)
            else:
                mon.same(A[c], B[c], "dependence:no-crosstalk", param=k, output=c)
        mon.state("dependence", k)
