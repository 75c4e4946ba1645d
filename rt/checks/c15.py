"""C15: differentiable histograms conserve weight and average correctly."""

import numpy as np

from diffstar.diffstarpop.sumstats.diffndhist import tw_ndhist, tw_ndhist_weighted
from diffstar.diffstarpop.sumstats.smhm import compute_smhm

from .. import core, gen
from .. import refmodel as R
from ..lib import eps

CASES = core.Registry()
RULE = (
    "Each execution histograms one generated point cloud; every bin is compared with the float64 sum of kernel products; classes "
    "are (number of dimensions, points, bins layout, smoothing regime, weighted or not)."
)
ASSUMPTIONS = ["smoothing lengths are positive; the kernel argument stays below 1e5 smoothing lengths"]


def cloud(rng, n, d, kind):
    """data, sigma"""
    x = rng.normal(0, 1.5, (n, d)) + np.arange(d)
    s = {
        "narrow": rng.uniform(1e-3, 1e-2, (n, d)),
        "wide": rng.uniform(1.0, 5.0, (n, d)),
        "mixed": 10 ** rng.uniform(-2.5, 1, (n, d)),
        "bin": np.full((n, d), 0.4),
        "per-dim": np.broadcast_to(10 ** rng.uniform(-2, 0.5, d), (n, d)).copy(),
    }[kind]
    if kind == "mixed" and n > 3:
        x[0] = 40.0  # far outside every bin
        x[1] = -40.0
    return gen.f32(x), gen.f32(s)


def tol_hist(mon, x, s, lo, hi, y=None):
    """rounding of each kernel value: the argument is (x - edge)/sigma, its slope at most 35/96"""
    X, S = x[None], s[None]
    e = eps(mon)
    z = np.maximum(np.abs(X - lo[:, None]), np.abs(X - hi[:, None])) / S
    near = np.minimum(z, 12.0)  # beyond the support the kernel is flat
    mag = (np.abs(X) + np.abs(lo[:, None]) + np.abs(hi[:, None])) / S * (z < 1e5)
    w1 = (40 * e * (1 + near) + 2 * e * np.where(near < 12, mag, 0) ) .sum(-1)
    # inside the support the absolute size of x and edges matters through their difference
    w1 = w1 + (2 * e * np.where((np.abs(X - lo[:, None]) < 4 * S) | (np.abs(X - hi[:, None]) < 4 * S), mag, 0)).sum(-1)
    yy = 1.0 if y is None else np.abs(y)[None]
    return (w1 * yy).sum(1) + e * x.shape[0] * 4 * (1.0 if y is None else np.abs(y).max())


SIG = ("narrow", "wide", "mixed", "bin", "per-dim")
SHAPES = ((1, 1, 1), (2, 1, 7), (50, 1, 10), (64, 2, 12), (40, 3, 9), (3, 4, 2), (500, 2, 30), (2, 2, 5), (3, 3, 3), (2, 2, 2), (1, 3, 1), (5, 2, 5))


def boxes(rng, d, nb, kind):
    if kind == "grid" and d == 1:
        e = np.sort(rng.uniform(-4, 5, nb + 1))
        return gen.f32(e[:-1])[:, None], gen.f32(e[1:])[:, None]
    lo = rng.uniform(-4, 4, (nb, d))
    hi = lo + 10 ** rng.uniform(-2, 0.8, (nb, d))
    if kind == "zero":
        hi[0] = lo[0]
    return gen.f32(lo), gen.f32(hi)


@CASES(quick=36, thorough=400)
def model(mon, rng):
    n, d, nb = SHAPES[mon.rep % len(SHAPES)]
    sk = SIG[mon.rep % len(SIG)]
    bk = ("grid", "free", "zero")[int(rng.integers(3))]
    x, s = cloud(rng, n, d, sk)
    lo, hi = boxes(rng, d, nb, bk)
    yk = int(rng.integers(3))
    y = gen.f32((rng.normal(0, 5, n), rng.uniform(0, 1, n), 10 ** rng.uniform(6, 12, n))[yk])
    h = np.asarray(tw_ndhist(x, s, lo, hi), np.float64)
    hw = np.asarray(tw_ndhist_weighted(x, s, y, lo, hi), np.float64)
    mon.close(h, R.ndhist(x, s, lo, hi), tol_hist(mon, x, s, lo, hi), "model:counts", n=n, d=d, sig=sk)
    mon.close(hw, R.ndhist(x, s, lo, hi, y), tol_hist(mon, x, s, lo, hi, y), "model:weighted", n=n, d=d, sig=sk, y=yk)
    mon.ok((h >= -tol_hist(mon, x, s, lo, hi)) & (h <= n * (1 + 1e-5)), "model:between-0-and-n", sig=sk)
    one = np.asarray(tw_ndhist_weighted(x, s, np.ones(n), lo, hi), np.float64)
    mon.close(one, h, tol_hist(mon, x, s, lo, hi), "model:unit-weight-is-count")
    # (n, 1) weights are what the SMHM estimator passes
    h2 = np.asarray(tw_ndhist_weighted(x, s, y.reshape(-1, 1), lo, hi), np.float64)
    mon.close(h2.reshape(-1), hw, 1e-12 + 2 * tol_hist(mon, x, s, lo, hi, y), "model:column-weights")
    # order of points
    p = rng.permutation(n)
    hp = np.asarray(tw_ndhist_weighted(x[p], s[p], y[p], lo, hi), np.float64)
    mon.close(hp, hw, 2 * tol_hist(mon, x, s, lo, hi, y), "model:order-of-points")
    # bins are separate: subset of bins gives the same values
    k = rng.permutation(nb)[: max(1, nb // 2)]
    hk = np.asarray(tw_ndhist_weighted(x, s, y, lo[k], hi[k]), np.float64)
    mon.close(hk, hw[k], 2 * tol_hist(mon, x, s, lo, hi, y)[k], "model:bins-independent")
    mon.state("model", n, d, nb, sk, bk, yk)
    mon.sample(n=n, d=d, sig=sk, counts=h[:4])


@CASES(quick=14, thorough=200)
def merge(mon, rng):
    """adjacent bins add up to the merged bin in every dimension; a full tiling conserves all points"""
    n, d = ((40, 1), (30, 2), (20, 3))[mon.rep % 3]
    x, s = cloud(rng, n, d, SIG[mon.rep % len(SIG)])
    y = gen.f32(rng.uniform(0.1, 10, n))
    lo, hi = boxes(rng, d, 6, "free")
    ax = int(rng.integers(d))
    mid = gen.f32(lo[:, ax] + rng.uniform(0, 1, 6) * (hi[:, ax] - lo[:, ax]))
    hiA, loB = hi.copy(), lo.copy()
    hiA[:, ax], loB[:, ax] = mid, mid
    for f, tag, yy in ((tw_ndhist, "counts", None), (tw_ndhist_weighted, "weighted", y)):
        a = () if yy is None else (yy,)
        A, B, C = (np.asarray(f(x, s, *a, l, h), np.float64) for l, h in ((lo, hiA), (loB, hi), (lo, hi)))
        t = tol_hist(mon, x, s, lo, hi, yy) + tol_hist(mon, x, s, lo, hiA, yy) + tol_hist(mon, x, s, loB, hi, yy)
        mon.close(A + B, C, t, "merge:adjacent-" + tag, d=d, ax=ax)
        # tiling far wider than every kernel
        e = [np.array([-200.0, -1.0, 0.3, 2.0, 200.0])] * d
        g = np.meshgrid(*[np.arange(4)] * d, indexing="ij")
        L = np.stack([e[i][v.ravel()] for i, v in enumerate(g)], -1)
        H = np.stack([e[i][v.ravel() + 1] for i, v in enumerate(g)], -1)
        T = np.asarray(f(x, s, *a, L, H), np.float64)
        want = n if yy is None else yy.sum()
        mon.close(T.sum(), want, tol_hist(mon, x, s, L, H, yy).sum() + 1e-5 * want * (not mon.x64), "merge:tiling-" + tag, d=d)
        mon.ok(T >= -tol_hist(mon, x, s, L, H, yy), "merge:non-negative-" + tag)
    mon.state("merge", n, d, SIG[mon.rep % len(SIG)], ax)


@CASES(quick=10, thorough=100)
def limits(mon, rng):
    """well inside counts fully, far outside not at all, the edge counts half"""
    d = 1 + mon.rep % 3
    lo, hi = np.full((1, d), -10.0), np.full((1, d), 10.0)
    n = 16
    s = gen.f32(rng.uniform(0.01, 1.0, (n, d)))
    inside = gen.f32(rng.uniform(-1, 1, (n, d)) * (10 - 3.01 * s))
    h = np.asarray(tw_ndhist(inside, s, lo, hi), np.float64)
    mon.close(h, [n], 30 * eps(mon) * n, "limits:inside", d=d)
    for i in range(3):
        w = float(np.asarray(tw_ndhist(inside[i : i + 1], s[i : i + 1], lo, hi))[0])
        mon.ok(w <= 1 + 8 * eps(mon), "limits:weight-at-most-one")
    out = inside.copy()
    ax = int(rng.integers(d))
    out[:, ax] = gen.f32(rng.choice([-1, 1], n) * (10 + 3.05 * s[:, ax] + rng.choice([0, 1.0, 1e3], n)))
    h = np.asarray(tw_ndhist(out, s, lo, hi), np.float64)
    mon.close(h, [0], 30 * eps(mon) * n, "limits:outside", d=d)
    edge = inside.copy()
    edge[:, ax] = rng.choice([-10.0, 10.0], n)
    h = np.asarray(tw_ndhist(edge, s, lo, hi), np.float64)
    mon.close(h, [n / 2], 30 * eps(mon) * n, "limits:edge-half", d=d)
    # moving a point towards the bin never lowers its weight
    xs = np.linspace(-16, 0, 60)
    P = np.zeros((60, d))
    P[:, 0] = xs
    S = np.full((60, d), 1.3)
    w = np.array([float(np.asarray(tw_ndhist_weighted(P, S, (np.arange(60) == j) * 1.0, lo, hi))[0]) for j in range(60)])
    mon.ok(np.diff(w) >= -10 * eps(mon), "limits:monotone")
    mon.state("limits", d)


@CASES(quick=20, thorough=300)
def smhm(mon, rng):
    """weighted mean per bin, bounded by the contributing values, exact on constants"""
    n, nb = ((200, 8), (1000, 20), (7, 3), (500, 5))[mon.rep % 4]
    k = ("const-sigma", "narrow", "wide", "per-point")[int(rng.integers(4))]
    edges = gen.f32(np.sort(rng.uniform(11.2, 14.8, nb + 1)) if mon.rep % 2 else np.linspace(11, 15, nb + 1))
    lm = gen.f32(np.concatenate([rng.uniform(10.5, 15.5, n - 3), edges[[0, 1, -1]] + 0.01]))
    sg = {"const-sigma": np.full(n, 0.2), "narrow": np.full(n, 0.02), "wide": np.full(n, 1.5), "per-point": 10 ** rng.uniform(-1.5, 0.3, n)}[k]
    sg = gen.f32(sg)
    ls = gen.f32(9 + 1.2 * (lm - 12) + rng.normal(0, 0.3, n))
    got = np.asarray(compute_smhm(lm, ls, sg, edges), np.float64)
    mon.ok(got.shape == (nb,), "smhm:shape", got_shape=got.shape)
    w = R.tw_bin(lm[None], sg[None], edges[:-1, None], edges[1:, None])
    W = w.sum(1)
    keep = W > 0.05  # an empty bin has no mean
    want = (w * ls).sum(1) / np.where(W > 0, W, 1)
    dw = tol_hist(mon, lm[:, None], sg[:, None], edges[:-1, None], edges[1:, None])
    tol = 3 * dw / np.maximum(W, 1e-9) * (np.abs(ls).max()) + 60 * eps(mon) * 12
    good = keep & (dw < 0.05 * W)
    mon.close(got[good], want[good], tol[good], "smhm:weighted-mean", sigma=k, n=n)
    contrib = w > 0
    lo = np.where(contrib, ls, np.inf).min(1)
    hi = np.where(contrib, ls, -np.inf).max(1)
    mon.ok((got[good] >= lo[good] - tol[good]) & (got[good] <= hi[good] + tol[good]), "smhm:within-range", sigma=k)
    c = float(np.float32(rng.uniform(7, 12)))
    gc = np.asarray(compute_smhm(lm, np.full(n, c), sg, edges), np.float64)
    mon.close(gc[good], np.full(good.sum(), c), 40 * eps(mon) * c * np.maximum(1, np.log2(n)), "smhm:constant", sigma=k)
    p = rng.permutation(n)
    gp = np.asarray(compute_smhm(lm[p], ls[p], sg[p], edges), np.float64)
    mon.close(gp[good], got[good], 2 * tol[good], "smhm:order-of-points")
    # a shift of all stellar masses shifts the relation
    gs = np.asarray(compute_smhm(lm, ls + 1.0, sg, edges), np.float64)
    mon.close(gs[good] - got[good], np.ones(good.sum()), 3 * tol[good], "smhm:shift")
    mon.state("smhm", n, nb, k, "empty-bins" if (~keep).any() else "full")
    mon.sample(sigma=k, smhm=got[:4])
