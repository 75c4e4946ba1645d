"""C08: galaxy-parameter mapping."""

import numpy as np

from diffstar import defaults as dd
from diffstar import get_bounded_diffstar_params, get_unbounded_diffstar_params
from diffstar.kernels import main_sequence_kernels as mk
from diffstar.kernels import quenching_kernels as qk

from .. import core, gen
from .. import refmodel as R
from ..lib import eps, inv_sigmoid_tol

CASES = core.Registry()
RULE = (
    "Each execution maps a batch of generated unbounded (or bounded) vectors through the public transforms; classes are "
    "(direction, how far from the centre, entry point)."
)
ASSUMPTIONS = ["round trips are asserted where the mapping is not saturated in the arithmetic used"]
K = len(R.PNAMES)
MID = np.array([0.5 * sum(R.BOUNDS[k]) for k in R.PNAMES])
WID = np.array([R.BOUNDS[k][1] - R.BOUNDS[k][0] for k in R.PNAMES])


def uvec(rng, n, reach):
    return gen.f32(MID + WID * rng.normal(0, reach, (n, K)))


def arr(t):
    return np.stack([np.asarray(x, np.float64) for x in t], -1)


def tol_b(mon, u):
    """absolute tolerance of a bounded value"""
    mag = np.array([max(map(abs, R.BOUNDS[k])) for k in R.PNAMES])
    return 8 * eps(mon) * mag + 3 * eps(mon) * np.abs(u)


@CASES(quick=10, thorough=120)
def forward(mon, rng):
    reach = (0.1, 0.5, 2.0, 20.0, 1e4)[mon.rep % 5]
    n = int((1, 3, 200)[mon.rep % 3])
    u = uvec(rng, n, reach)
    b = get_bounded_diffstar_params(dd.DiffstarUParams(*u.T))
    mon.ok(type(b).__name__ == "DiffstarParams" and b._fields == R.PNAMES, "forward:names", got=str(b._fields))
    B = arr(b)
    mon.close(B, arr(R.bound_galaxy(list(u.T))), tol_b(mon, u), "forward:model", reach=reach)
    lo = np.array([R.BOUNDS[k][0] for k in R.PNAMES])
    hi = np.array([R.BOUNDS[k][1] for k in R.PNAMES])
    e = 2 * eps(mon) * np.maximum(np.abs(lo), np.abs(hi))
    mon.ok((B >= lo - e) & (B <= hi + e), "forward:within-bounds", reach=reach)
    mon.ok(B[:, 7] >= B[:, 6] - e[6], "forward:rejuv>=drop")
    mon.ok(B[:, 7] <= 0.0, "forward:rejuv<=0")
    mon.state("forward", reach, n)
    # scalars and one row at a time agree with the batch
    i = int(rng.integers(n))
    s = get_bounded_diffstar_params(dd.DiffstarUParams(*[float(x) for x in u[i]]))
    mon.close([float(x) for x in s], B[i], 4 * eps(mon) * (1 + np.abs(B[i])), "forward:scalar")
    mon.sample(u=u[i], bounded=B[i])


@CASES(quick=8, thorough=80)
def monotone(mon, rng):
    """each coordinate increases with its own u and moves nothing else (except rejuv via drop)"""
    n = 60
    base = uvec(rng, 1, 0.5)[0]
    for j in range(K):
        g = np.linspace(-4, 4, n) * WID[j] + MID[j]
        u = np.tile(base, (n, 1))
        u[:, j] = gen.f32(g)
        B = arr(get_bounded_diffstar_params(dd.DiffstarUParams(*u.T)))
        d = np.diff(B[:, j])
        mon.ok(d >= -4 * eps(mon) * np.abs(MID[j]), "monotone:non-decreasing", param=R.PNAMES[j])
        inner = np.abs(g[1:] - MID[j]) < 1.5 * WID[j]
        mon.ok(d[inner] > 0, "monotone:strict", param=R.PNAMES[j])
        for k in range(K):
            if k != j and not (j == 6 and k == 7):
                mon.ok(B[:, k] == B[0, k], "monotone:independent", moved=R.PNAMES[j], seen=R.PNAMES[k])
        mon.state("monotone", R.PNAMES[j])
        if j == 6:
            mon.ok(np.diff(B[:, 7]) >= -4 * eps(mon), "monotone:rejuv-follows-drop")


LO = np.array([R.BOUNDS[k][0] for k in R.PNAMES])
HI = np.array([R.BOUNDS[k][1] for k in R.PNAMES])
KK = np.append(4 / WID[:7], 4.0 / 3.0)


def inverse_tol(mon, P):
    """per-coordinate error of the inverse at bounded points P (n, 8); the rejuvenation interval starts at the drop"""
    lo = np.tile(LO, (len(P), 1))
    lo[:, 7] = P[:, 6]
    return inv_sigmoid_tol(mon, P, lo, HI, KK)


@CASES(quick=12, thorough=150)
def roundtrip(mon, rng):
    n = int((1, 100, 100)[mon.rep % 3])
    reach = (0.5, 1.3, 2.5, 7.5)[mon.rep % 4]
    u = gen.f32(MID + reach * WID * rng.uniform(-1, 1, (n, K)))
    b = get_bounded_diffstar_params(dd.DiffstarUParams(*u.T))
    v = get_unbounded_diffstar_params(b)
    mon.ok(v._fields == tuple("u_" + k for k in R.PNAMES), "roundtrip:names")
    B = arr(b)
    tol, ok, f = inverse_tol(mon, B)
    tol = tol + 8 * eps(mon) * (4 + np.abs(u))
    V = arr(v)
    mon.close(V[ok], u[ok], tol[ok], "roundtrip:u->p->u", reach=reach)
    b2 = get_bounded_diffstar_params(v)
    mag = np.array([max(map(abs, R.BOUNDS[k])) for k in R.PNAMES])
    w = np.tile(WID, (n, 1)).astype(float)
    w[:, 7] = -B[:, 6]
    ff = np.clip(f, 0, 1)
    tb = 30 * eps(mon) * mag + KK * w * ff * (1 - ff) * np.where(ok, tol, 0)
    tb[:, 7] += tb[:, 6]
    okk = ok.copy()
    okk[:, 7] &= ok[:, 6]
    mon.close(arr(b2)[okk], B[okk], tb[okk], "roundtrip:p->u->p")
    for j in range(K):
        if ok[:, j].any():
            g = f[ok[:, j], j]
            mon.state("roundtrip", R.PNAMES[j], round(np.log10(g.min())), round(np.log10((1 - g).min())))
    # start from bounded points, from the middle of the interval to just inside its ends
    side = rng.choice([0, 1, 2], (n, K))
    gap = 10 ** rng.uniform(-11 if mon.x64 else -5, -2, (n, K))
    fr = np.where(side == 0, rng.uniform(0.01, 0.99, (n, K)), np.where(side == 1, gap, 1 - gap))
    P = LO + WID * fr
    P[:, 7] = P[:, 6] * (1 - fr[:, 7])
    P = P if mon.x64 else gen.f32(P)
    tol, ok, f = inverse_tol(mon, P)
    with np.errstate(divide="ignore", invalid="ignore"):
        want = arr(R.unbound_galaxy(list(P.T)))
    uu = get_unbounded_diffstar_params(dd.DiffstarParams(*P.T))
    U = arr(uu)
    tol = tol + 8 * eps(mon) * (4 + np.abs(np.where(ok, want, 0)))
    mon.close(U[ok], want[ok], tol[ok], "roundtrip:inverse-model")
    w[:, 7] = -P[:, 6]
    ff = np.clip(f, 0, 1)
    tb = 30 * eps(mon) * mag + KK * w * ff * (1 - ff) * np.where(ok, tol, 0)
    tb[:, 7] += tb[:, 6]
    ok[:, 7] &= ok[:, 6]
    mon.close(arr(get_bounded_diffstar_params(uu))[ok], P[ok], tb[ok], "roundtrip:interior")
    mon.ok(ok.mean() > 0.3, "roundtrip:enough")
    mon.state("roundtrip", n, reach)


@CASES(quick=4, thorough=40)
def blocks(mon, rng):
    """per-block, vectorised and full versions agree"""
    n = 30
    u = uvec(rng, n, 0.6)
    B = arr(get_bounded_diffstar_params(dd.DiffstarUParams(*u.T)))
    t = 4 * eps(mon) * (1 + np.abs(B))
    mon.close(arr(mk._get_bounded_sfr_params(*u.T[:4])), B[:, :4], t[:, :4], "blocks:ms")
    mon.close(arr(qk._get_bounded_q_params(*u.T[4:])), B[:, 4:], t[:, 4:], "blocks:q")
    mon.close(mk._get_bounded_sfr_params_vmap(u[:, :4]), B[:, :4], t[:, :4], "blocks:ms-vmap")
    if hasattr(qk, "_get_bounded_q_params_vmap"):
        mon.close(qk._get_bounded_q_params_vmap(u[:, 4:]), B[:, 4:], t[:, 4:], "blocks:q-vmap")
    U = arr(get_unbounded_diffstar_params(dd.DiffstarParams(*B.T)))
    g = np.isfinite(U).all(1) & (np.abs((u - MID) / WID) < 1.2).all(1)
    Bg, Ug = B[g], U[g]
    tu = 1e-9 + 2e3 * eps(mon) * (1 + np.abs(Ug))
    if g.any():
        mon.close(arr(mk._get_unbounded_sfr_params(*Bg.T[:4])), Ug[:, :4], tu[:, :4], "blocks:inv-ms")
        mon.close(arr(qk._get_unbounded_q_params(*Bg.T[4:])), Ug[:, 4:], tu[:, 4:], "blocks:inv-q")
        mon.close(mk._get_unbounded_sfr_params_vmap(Bg[:, :4]), Ug[:, :4], tu[:, :4], "blocks:inv-ms-vmap")
        if hasattr(qk, "_get_unbounded_q_params_vmap"):
            mon.close(qk._get_unbounded_q_params_vmap(Bg[:, 4:]), Ug[:, 4:], tu[:, 4:], "blocks:inv-q-vmap")
    for nm, col in (("_get_bounded_lg_drop", 6), ("_get_bounded_qt", 4)):
        f = getattr(qk, nm, None)
        if f is not None:
            mon.close(f(u[:, col]), B[:, col], t[:, col], "blocks:" + nm)
    # published defaults agree with each other
    d = arr(dd.DEFAULT_DIFFSTAR_PARAMS)
    mon.close(arr(get_bounded_diffstar_params(dd.DEFAULT_DIFFSTAR_U_PARAMS)), d, 20 * eps(mon) * 14, "blocks:defaults")
    mon.close(arr(dd.DEFAULT_DIFFSTAR_U_PARAMS), arr(R.unbound_galaxy(list(d))), 1e-10 if mon.x64 else 1e-4, "blocks:u-defaults")
    mon.state("blocks", int(g.sum()) // 10)
