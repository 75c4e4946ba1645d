"""C16: population losses compare normalised predictions with the targets."""

import jax
import jax.numpy as jnp
import jax.random as jran
import numpy as np

from diffstar.diffstarpop import DiffstarPopUParams, get_bounded_diffstarpop_params, mc_diffstar_sfh_galpop
from diffstar.diffstarpop.loss_kernels import mstar_ssfr_loss_mgash_anyz as lk

from .. import core, gen
from .. import refmodel as R
from ..lib import MAH, eps
from .c10 import params

CASES = core.Registry()
RULE = (
    "Each execution evaluates every predictor, loss and wrapper on one generated target set (several redshift/halo-mass rows, mixed "
    "centrals and satellites) and compares it with histograms rebuilt from the Monte Carlo population of the same keys; classes are "
    "(parameter kind, entry point, central/satellite mix, halo-abundance layout)."
)
ASSUMPTIONS = [
    "the Monte Carlo population of a row is the public mc_diffstar_sfh_galpop draw with that row's key on 20 log-spaced times up to the row's age",
    "rows of the target with no predicted galaxy are left out (their normalisation is undefined)",
]
NZ, NG = 4, 24
BM = gen.f32(np.linspace(8.0, 12.0, 7))
BS = gen.f32(np.linspace(-12.5, -8.5, 6))


def workload(rng, kind, mix):
    d, _ = params(rng, kind)
    lo, hi = np.array(list(R.ALL_POP_BOUNDS.values())).T
    u = gen.f32(R.unbound_pop(np.array([d[k] for k in R.ALL_POP_BOUNDS]), lo, hi))
    h = [gen.halo(rng, NG, strata=("uniform", "default", "earlypeak"))[0] for _ in range(NZ)]
    m = np.stack([np.stack(q) for q in h])
    m[:, 0] = rng.uniform(11.0, 14.5, (NZ, NG))
    m = gen.f32(m)
    x = gen.f32(m[:, 0] + rng.normal(0, 0.1, (NZ, NG)))
    sat = [gen.satellites(rng, NG) for _ in range(NZ)]
    up, a1, a2, a3 = (np.stack([s[i] for s in sat]) for i in range(4))
    if mix == "cen":
        up[:] = -1
    elif mix == "sat":
        up = np.where(up == -1, 9, up)
        a1, a2, a3 = np.where(a1 == 0, -1.0, a1), np.where(a2 == 0, 13.5, a2), np.where(a3 == -100, 2.0, a3)
    s0 = int(rng.integers(2**31))
    keys = np.stack([np.asarray(jran.PRNGKey(s0 + i)) for i in range(NZ)])
    tobs = gen.f32(rng.uniform(2.0, 13.7, NZ))
    lgt0, fb = float(np.float32(np.log10(rng.uniform(13, 14.5)))), float(np.float32(rng.uniform(0.1, 0.2)))
    return u, (m, x, up, a1, a2, a3, keys, tobs, lgt0, fb)


def nd_boxes(bm=BM, bs=BS):
    a, b = np.meshgrid(np.arange(len(bm) - 1), np.arange(len(bs) - 1), indexing="ij")
    a, b = a.ravel(), b.ravel()
    return np.stack([bm[a], bs[b]], -1), np.stack([bm[a + 1], bs[b + 1]], -1)


_jit = {}


def observed(mon, u, W):
    """per row: log stellar mass, log sSFR and weights of both sequences from the public population draw"""
    if "b" not in _jit:
        _jit["b"] = jax.jit(lambda v: get_bounded_diffstarpop_params(DiffstarPopUParams(*v)))
    P = _jit["b"](jnp.asarray(u))
    m, x, up, a1, a2, a3, keys, tobs, lgt0, fb = W
    rows = []
    for i in range(NZ):
        t = np.logspace(-1, np.log10(tobs[i]), 20)
        o = mc_diffstar_sfh_galpop(P, MAH(*m[i]), x[i], up[i], a1[i], a2[i], a3[i], jnp.asarray(keys[i]), t, lgt0=lgt0, fb=fb)
        f = np.asarray(o.frac_q, np.float64)
        sm, ss = [], []
        for s in (o.sfh_ms, o.sfh_q):
            s = np.asarray(s, np.float64)
            M = R.smh(t, s)[:, -1]
            sm.append(np.log10(M))
            ss.append(np.maximum(np.log10(s[:, -1]) - np.log10(M), -12.0))
        rows.append((np.concatenate(sm), np.concatenate(ss), np.concatenate([1 - f, f])))
    return rows


def ref_mstar(rows):
    out = []
    sig = np.full(2 * NG, np.mean(np.diff(BM)))[:, None]
    for sm, ss, w in rows:
        h = R.ndhist(sm[:, None], sig, BM[:-1, None], BM[1:, None], w)
        out.append(h / h.sum())
    return np.stack(out)


def ref_cells(rows):
    lo, hi = nd_boxes()
    sig = np.stack([np.full(2 * NG, np.mean(np.diff(BM))), np.full(2 * NG, np.mean(np.diff(BS)))], -1)
    out = []
    for sm, ss, w in rows:
        h = R.ndhist(np.stack([sm, ss], -1), sig, lo, hi, w)
        out.append((h / h.sum()).reshape(len(BM) - 1, len(BS) - 1))
    return np.stack(out)


def layout(rng, cells, kind):
    """halo abundances: which rows make up each target redshift and with what weight"""
    if kind == "one-to-one":
        idx, pdf = np.arange(NZ)[:, None], np.ones((NZ, 1))
    elif kind == "pairs":
        idx, pdf = np.array([[0, 1], [2, 3]]), rng.uniform(0.1, 1, (2, 2))
    else:
        idx, pdf = rng.permutation(NZ)[None], 10 ** rng.uniform(-2, 0, (1, NZ))
    pdf = gen.f32(pdf / pdf.sum(1, keepdims=True) * (1.0, 37.0)[int(rng.integers(2))])
    w = np.einsum("zmab,zm->zab", cells[idx], pdf)
    frac = (w.sum(2) / w.sum((1, 2))[:, None]).min(0)
    ids = np.flatnonzero(frac > 0.02)
    ids = rng.permutation(ids)[:3]
    return idx, pdf, np.asarray(ids)


def ref_ssfr(cells, idx, pdf, ids):
    w = np.einsum("zmab,zm->zab", cells[idx], pdf)[:, ids]
    return w / w.sum(2, keepdims=True)


def dist(rng, shape):
    p = rng.uniform(0.01, 1, shape)
    return gen.f32(p / p.sum(-1, keepdims=True))


def mse(a, b):
    return 1000 * np.mean((np.asarray(a, np.float64) - np.asarray(b, np.float64)) ** 2)


LAYOUTS = ("one-to-one", "pairs", "all")
KINDS = ("near", "ship", "gentle", "mid")


@CASES(quick=8, thorough=160)
def everything(mon, rng):
    kind = KINDS[mon.rep % 4]
    # one layout per quick process: every layout is a separate compilation of all the losses
    lay = LAYOUTS[mon.rep % 3] if mon.tier != "quick" else ("pairs" if mon.x64 else "all")
    u, W = workload(rng, kind, "mix")
    uC, WC = u, workload(rng, kind, "cen")[1]
    uS, WS = u, workload(rng, kind, "sat")[1]
    rows, rowsC, rowsS = observed(mon, u, W), observed(mon, u, WC), observed(mon, u, WS)
    tol = 1e-9 if mon.x64 else 3e-4
    nt = DiffstarPopUParams(*u)
    # stellar mass distributions
    ref = ref_mstar(rows)
    T = dist(rng, ref.shape)
    dm = (*W, BM, T)
    pred = np.asarray(lk.get_pred_mstar_data_wrapper(u, dm), np.float64)
    mon.close(pred, ref, tol, "mstar:prediction", kind=kind)
    mon.close(np.asarray(lk.mstar_kern_tobs(nt, dm), np.float64), ref, tol, "mstar:kernel", kind=kind)
    mon.ok(pred >= -tol, "mstar:non-negative")
    mon.close(pred.sum(1), np.ones(NZ), 30 * eps(mon), "mstar:sums-to-one")
    losses = [(lk.loss_mstar_kern_tobs, lk.loss_mstar_kern_tobs_grad_wrapper, dm, ref, "mstar")]
    mon.state("mstar", kind, "mix")
    # specific star formation rates at fixed stellar mass
    for tag, Wk, rk, pw, kern, loss, wrap in (
        ("ssfr-cen", WC, rowsC, lk.get_pred_mstar_ssfr_data_wrapper, lk.mstar_ssfr_kern_tobs, lk.loss_mstar_ssfr_kern_tobs, lk.loss_mstar_ssfr_kern_tobs_grad_wrapper),
        ("ssfr-sat", WS, rowsS, lk.get_pred_mstar_ssfr_sat_data_wrapper, lk.mstar_ssfr_sat_kern_tobs, lk.loss_mstar_ssfr_sat_kern_tobs, lk.loss_mstar_ssfr_sat_kern_tobs_grad_wrapper),
    ):
        cells = ref_cells(rk)
        idx, pdf, ids = layout(rng, cells, lay)
        if len(ids) < 3:
            ids = np.argsort(-cells.sum((0, 2)))[:3]
        w = ref_ssfr(cells, idx, pdf, ids)
        scale = np.einsum("zmab,zm->zab", cells[idx], pdf)[:, ids].sum(2).min() / pdf.sum(1).max()
        lo, hi = nd_boxes()
        data = (*Wk, lo, hi, BM, BS, pdf, idx, ids, dist(rng, w.shape))
        p = np.asarray(pw(u, data), np.float64)
        t2 = tol / min(1.0, max(scale, 1e-6))
        mon.close(p, w, t2, tag + ":prediction", kind=kind, layout=lay)
        mon.close(np.asarray(kern(nt, data), np.float64), w, t2, tag + ":kernel", kind=kind)
        mon.ok(p >= -t2, tag + ":non-negative")
        mon.close(p.sum(2), np.ones(p.shape[:2]), 30 * eps(mon), tag + ":sums-to-one")
        losses.append((loss, wrap, data, w, tag))
        # either kernel on the other population: the environment enters only through the galaxies
        mon.state(tag, kind, lay)
    vals = {}
    for loss, wrap, data, w, tag in losses:
        want = mse(w, data[-1])
        tl = 1e-8 * (1 + want) if mon.x64 else 5e-3 * (want + 0.05)
        L = float(loss(nt, data))
        mon.close(L, want, tl, tag + ":loss", kind=kind)
        v, g = wrap(u, data)
        vals[tag] = (L, np.asarray(g, np.float64))
        mon.close(float(v), L, 20 * eps(mon) * (1 + abs(L)) * (1 if mon.x64 else 50), tag + ":wrapper-loss")
        mon.ok(np.asarray(g).shape == (len(u),) and np.isfinite(np.asarray(g)).all(), tag + ":gradient-finite", kind=kind)
        z = float(loss(nt, (*data[:-1], jnp.asarray(w))))
        mon.ok(0 <= z <= 1000 * (3 * tol) ** 2 + 1e-12, tag + ":zero-at-agreement", loss=z)
        mon.ok(L > 0, tag + ":positive")
    d1, d2, d3 = (l[2] for l in losses)
    L = [vals[k][0] for k in ("mstar", "ssfr-cen", "ssfr-sat")]
    G = [vals[k][1] for k in ("mstar", "ssfr-cen", "ssfr-sat")]
    gs = np.abs(np.stack(G)).max()
    ge = (1e-9 if mon.x64 else 5e-3) * gs
    two, g2 = lk.loss_combined_wrapper(u, d1, d2)
    three, g3 = lk.loss_combined_3loss_wrapper(u, d1, d2, d3)
    e = (1e-10 if mon.x64 else 1e-4) * sum(L)
    mon.close(float(two), L[0] + L[1], e, "combined:two")
    mon.close(float(three), sum(L), e, "combined:three")
    mon.close(float(lk.loss_combined_kern(nt, d1, d2)), L[0] + L[1], e, "combined:two-kernel")
    mon.close(float(lk.loss_combined_3loss_kern(nt, d1, d2, d3)), sum(L), e, "combined:three-kernel")
    mon.close(np.asarray(g2), G[0] + G[1], ge, "combined:two-gradient")
    mon.close(np.asarray(g3), sum(G), ge, "combined:three-gradient")
    if mon.x64:  # directional slopes of every loss against its wrapper's gradient
        for (loss, wrap, data, w, tag), g in list(zip(losses, G)):
            if "v" + tag not in _jit:
                _jit["v" + tag] = jax.jit(jax.vmap(lambda v, dd, _l=loss: _l(DiffstarPopUParams(*v), dd), in_axes=(0, None)))
            n = len(u)
            dirs = np.concatenate([rng.normal(0, 1, (4, n)) / np.sqrt(n), np.eye(n)[rng.choice(n, 6, replace=False)]])
            h = 3e-5
            V = np.asarray(_jit["v" + tag](jnp.asarray(np.concatenate([u + h * dirs, u - h * dirs, u + h / 2 * dirs, u - h / 2 * dirs])), data))
            k = len(dirs)
            D1, D2 = (V[:k] - V[k : 2 * k]) / (2 * h), (V[2 * k : 3 * k] - V[3 * k :]) / h
            D = (4 * D2 - D1) / 3
            t3 = 5 * np.abs(D2 - D1) + 3e-4 * np.abs(D) + 1e-12 * (1 + abs(V).max()) / h
            mon.close(dirs @ g, D, t3, tag + ":gradient-is-slope", kind=kind)
    mon.sample(kind=kind, losses=L, pred=pred[0])


@CASES(quick=8, thorough=100)
def histograms(mon, rng):
    """the two per-row distributions on arbitrary points"""
    nr, n = 3, 40
    bm, bs = BM, BS
    if mon.rep % 4 >= 2:  # bins of unequal width: smoothed over the mean width
        bm = gen.f32(8.0 + 4.0 * np.concatenate([[0.0], np.cumsum(rng.dirichlet(np.full(len(BM) - 1, 1.5)))]))
        bs = gen.f32(-12.5 + 4.0 * np.concatenate([[0.0], np.cumsum(rng.dirichlet(np.full(len(BS) - 1, 1.5)))]))
    x = gen.f32(rng.uniform(8, 12, (nr, n)))
    s = gen.f32(rng.uniform(-12, -9, (nr, n)))
    w = gen.f32(rng.uniform(0, 1, (nr, n)) * 10.0 ** rng.uniform(-4, 2, (nr, 1)))
    if mon.rep % 2:  # one or two galaxies on the grid
        w = gen.f32(np.where(rng.permuted(np.arange(n) + np.zeros((nr, 1)), axis=1) < 2, w, 0))
        x = gen.f32(np.where(w > 0, rng.uniform(8.5, 11.5, (nr, n)), x))
        s = gen.f32(np.where(w > 0, rng.uniform(-11.5, -9.5, (nr, n)), s))
    got = np.asarray(lk.compute_diff_histograms_mstar_atmobs_z_vmap(bm, x, w), np.float64)
    sig = np.full((n, 1), np.mean(np.diff(bm)))
    ref = np.stack([R.ndhist(a[:, None], sig, bm[:-1, None], bm[1:, None], b) for a, b in zip(x, w)])
    ref = ref / ref.sum(1, keepdims=True)
    tol = 1e-12 if mon.x64 else 2e-5
    mon.close(got, ref, tol, "histograms:mstar")
    lo, hi = nd_boxes(bm, bs)
    g2 = np.asarray(lk.compute_diff_histograms_mstar_ssfr_atmobs_z_vmap(x, s, w, lo, hi, bm, bs), np.float64)
    sg = np.stack([np.full(n, np.mean(np.diff(bm))), np.full(n, np.mean(np.diff(bs)))], -1)
    r2 = np.stack([R.ndhist(np.stack([a, b], -1), sg, lo, hi, c) for a, b, c in zip(x, s, w)])
    mon.close(g2, r2 / r2.sum(1, keepdims=True), tol, "histograms:mstar-ssfr")
    p = rng.permutation(n)
    g3 = np.asarray(lk.compute_diff_histograms_mstar_atmobs_z_vmap(bm, x[:, p], w[:, p]), np.float64)
    mon.close(g3, got, tol, "histograms:order-of-galaxies")
    c = gen.f32(10.0 ** rng.uniform(-4, 4))
    g4 = np.asarray(lk.compute_diff_histograms_mstar_atmobs_z_vmap(bm, x, c * w), np.float64)
    mon.close(g4, got, tol, "histograms:scale-free", factor=float(c))
    g5 = np.asarray(lk.compute_diff_histograms_mstar_ssfr_atmobs_z_vmap(x, s, c * w, lo, hi, bm, bs), np.float64)
    mon.close(g5, g2, tol, "histograms:scale-free", factor=float(c))
    mon.state("histograms", mon.rep % 2, int(np.log10(w.sum())))
