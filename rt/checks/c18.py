"""C18: fit targets, weights, loss and the fit itself against the documented definition."""

import jax.numpy as jnp
import numpy as np

from diffstar import DEFAULT_DIFFSTAR_U_PARAMS, calc_sfh_singlegal, get_bounded_diffstar_params
from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh

from .. import core, gen
from .. import refmodel as R
from ..lib import eps, gal, mah, row, tol_lgsfr

CASES = core.Registry()
RULE = (
    "Each execution prepares, scores or fits one star formation history; targets, weights and losses are recomputed in float64 from "
    "the history and the options alone. Classes are (history kind, halo kind, grid, option that is not default)."
)
ASSUMPTIONS = [
    "entries whose cut or floor lies within rounding of the threshold are not judged (counted as undecided)",
    "the histories handed in are non-negative",
]
KEYS = ("dlogm_cut", "t_fit_min", "mass_fit_min", "fstar_tdelay", "ssfrh_floor", "lgt0", "fb")
DOC = dict(dlogm_cut=3.5, t_fit_min=1.0, mass_fit_min=7.0, fstar_tdelay=1.0, ssfrh_floor=1e-12, lgt0=np.log10(13.8), fb=0.156)
SFH_KINDS = ("model", "noisy", "burst", "quenched", "late", "gaps", "const", "uniform", "zeros", "dwarf", "early")


def history(rng, kind, t, p, m, lgt0, fb):
    n = len(t)
    s = R.sfr(p, m, t, lgt0, fb)
    if kind == "noisy":
        s = s * 10 ** rng.normal(0, 0.3, n)
    elif kind == "burst":
        s = s * 10 ** np.where(rng.random(n) < 0.1, 2.0, 0.0)
    elif kind == "quenched":
        s = np.where(t > rng.uniform(2, 10), 0.0, s)
    elif kind == "late":
        s = np.where(t < rng.uniform(1, 8), 0.0, s)
    elif kind == "gaps":
        s = np.where(rng.random(n) < 0.4, 0.0, s)
    elif kind == "const":
        s = np.full(n, 10 ** rng.uniform(-3, 2))
    elif kind == "uniform":
        s = rng.uniform(0, 100, n)
    elif kind == "zeros":
        s = np.zeros(n)
    elif kind == "dwarf":
        s = s / max(s.max(), 1e-300) * 10 ** rng.uniform(-4, -2.3)
    elif kind == "early":
        tq = rng.uniform(0.6, 3.0)
        s = np.where(t < tq, 50.0, 1e-3) * 10 ** rng.normal(0, 0.05, n)
    return gen.f32(s)


def options(rng, default=False):
    o = dict(DOC)
    if default:
        return o, ["default"]
    ch = [k for k in KEYS if rng.random() < 0.5]
    for k in ch:
        o[k] = {
            "dlogm_cut": rng.uniform(0.3, 5),
            "t_fit_min": rng.uniform(0.1, 6),
            "mass_fit_min": rng.uniform(5, 11),
            "fstar_tdelay": rng.uniform(0.2, 3),
            "ssfrh_floor": 10 ** rng.uniform(-14, -9.5),
            "lgt0": np.log10(rng.uniform(11.0, 16.0)),
            "fb": rng.uniform(0.05, 0.3),
        }[k]
        o[k] = float(np.float32(o[k]))
    return o, ch or ["default"]


def setup(mon, rng, kind=None, strata=None, hstrata=None, n=None, default=None):
    o, ch = options(rng, default=(mon.rep % 4 == 0) if default is None else default)
    t0 = 10 ** o["lgt0"]
    n = n or int(rng.choice([20, 50, 90, 150]))
    gk = ("lin", "log", "random")[int(rng.integers(3))]
    t = {"lin": np.linspace(0.1, t0, n), "log": np.logspace(-1, np.log10(t0), n), "random": np.sort(rng.uniform(0.1, t0, n))}[gk]
    t = np.unique(gen.f32(t))
    if "t_fit_min" in ch and rng.random() < 0.5:  # the window opens exactly at a snapshot, which is inside it
        o["t_fit_min"] = float(t[np.searchsorted(t, o["t_fit_min"])])
    p, gs = gen.galaxy(rng, 1, strata)
    m, hs = gen.halo(rng, 1, t, t0, hstrata)
    p, m = row(gen.f32t(p), 0), row(gen.f32t(m), 0)
    kind = kind or SFH_KINDS[mon.rep % len(SFH_KINDS)]
    s = history(rng, kind, t, p, m, o["lgt0"], o["fb"])
    mon.state(kind, gs[0], hs[0], gk)
    for c in ch:
        mon.state("option", c, kind)
    return t, s, p, m, o, kind


def targets(t, s, o, jit=None):
    """documented targets, float64; jit perturbs the intermediate masses for error estimates"""
    st = np.maximum(s, R.SFR_MIN)
    ms = R.smh(t, s)
    if jit is not None:
        ms = ms * (1 + jit)
    lm = np.log10(ms)
    fs = R.fstar(t, ms, o["fstar_tdelay"])
    ft = np.maximum(fs / ms, o["ssfrh_floor"]) * ms
    lf = np.log10(np.maximum(ft, ft.max() / 1000))
    return dict(sfh=st, ms=ms, lm=lm, lf=lf)


def weights(t, T, o, amb):
    """documented weights and the entries whose class is decided by rounding"""
    lm, lf = T["lm"], T["lf"]
    cut = min(lm[-1] - 0.5, o["mass_fit_min"])
    d1, d2, d3, d4 = lm - (lm[-1] - o["dlogm_cut"]), lm - cut, lm[-1] - lm - 0.1, lf.max() - lf - 0.1
    mask = (d1 > 0) & (d2 > 0) & (t >= o["t_fit_min"])
    w = np.where(mask, np.where(d3 < 0, 0.5, 1.0), 1e10)
    wf = np.where(mask & (t >= o["fstar_tdelay"] + 0.01), np.where(d4 < 0, 0.5, 1.0), 1e10)
    a = np.minimum(np.abs(d1), np.abs(d2)) < amb
    edge = np.abs(t - o["fstar_tdelay"] - 0.01) < 1e-9
    return w, wf, a | (np.abs(d3) < amb), a | edge | (np.abs(d4) < amb)


def jitters(mon, rng, n, k):
    e = eps(mon) * (np.sqrt(n) + 6)
    return [rng.choice([-1.0, 1.0], n) * e for _ in range(k)]


def target_tols(mon, rng, t, s, o):
    T = targets(t, s, o)
    tl, tf = np.full(len(t), 4 * eps(mon) * (5 + np.abs(T["lm"]))), np.full(len(t), 4 * eps(mon) * (5 + np.abs(T["lf"])))
    for j in jitters(mon, rng, len(t), 6):
        P = targets(t, s, o, j)
        tl = np.maximum(tl, np.abs(P["lm"] - T["lm"]))
        tf = np.maximum(tf, np.abs(P["lf"] - T["lf"]))
    return T, 3 * tl + 2 * eps(mon) * np.abs(T["lm"]), 6 * np.maximum(tf, tl) + 4 * eps(mon) * (np.abs(T["lf"]) + 20)


def call_data(t, s, m, o, default):
    kw = {} if default else o
    return dfh.get_loss_data_default(t.copy(), s.copy(), mah(m), **kw)


@CASES(quick=44, thorough=1000)
def prepare(mon, rng):
    t, s, p, m, o, kind = setup(mon, rng)
    default = all(o[k] == DOC[k] for k in KEYS)
    tc, sc = t.copy(), s.copy()
    (u0, err), data = call_data(t, s, m, o, default)
    T, tl, tf = target_tols(mon, rng, t, s, o)
    kw = dict(kind=kind, opts=o)
    names = "t mah ms lm sfh lf tdelay floor w wf lgtmax lgt0 fb".split()
    D = dict(zip(names, data))
    mon.ok(len(data) == 13, "prepare:length")
    mon.same(np.asarray(D["t"]), tc, "prepare:times")
    mon.close(np.asarray(D["sfh"], float), T["sfh"], 2 * eps(mon) * T["sfh"], "prepare:sfr-target", **kw)
    mon.close(np.log10(np.asarray(D["ms"], float)), T["lm"], tl, "prepare:mass-target", **kw)
    mon.close(D["lm"], T["lm"], tl, "prepare:log-mass-target", **kw)
    mon.close(D["lf"], T["lf"], tf, "prepare:averaged-sfr-target", **kw)
    for k, q in (("tdelay", "fstar_tdelay"), ("floor", "ssfrh_floor"), ("lgt0", "lgt0"), ("fb", "fb")):
        mon.close(float(D[k]), o[q], 1e-6 * abs(o[q]) if default else 1e-12 * abs(o[q]), "prepare:option-passed", option=q)
    mon.close([float(x) for x in D["mah"]], m, 1e-6 * np.abs(m), "prepare:halo-passed")
    amb = float(np.max(tl)) * 3 + float(np.max(tf)) * 3
    w, wf, a, af = weights(t, T, o, amb)
    gw, gwf = np.asarray(D["w"], float), np.asarray(D["wf"], float)
    mon.ok((np.abs(gw / w - 1) < 1e-6) | a, "prepare:mass-weights", **kw)
    mon.ok((np.abs(gwf / wf - 1) < 1e-6) | af, "prepare:averaged-sfr-weights", **kw)
    out = t < o["t_fit_min"]
    mon.ok(gw[out] > 1e6, "prepare:no-weight-before-minimum-time", **kw)
    mon.ok(gwf[out] > 1e6, "prepare:no-weight-before-minimum-time", **kw)
    low = T["lm"] < min(o["mass_fit_min"], T["lm"][-1] - 0.5) - amb
    low |= T["lm"] < T["lm"][-1] - o["dlogm_cut"] - amb
    mon.ok((gw[low] > 1e6) & (gwf[low] > 1e6), "prepare:no-weight-below-mass-cuts", **kw)
    # the quenching ridge is placed at the time of the largest averaged SFR
    mon.ok(np.any((np.abs(np.log10(t) - float(D["lgtmax"])) < 1e-6) & (T["lf"] >= T["lf"].max() - 2 * tf.max())), "prepare:peak-time", **kw)
    mon.ok(np.isfinite(u0) & np.isfinite(err) & (np.asarray(err) > 0), "prepare:guess-finite")
    b = np.array(get_bounded_diffstar_params(DEFAULT_DIFFSTAR_U_PARAMS._make(u0)), float)
    mon.ok(all(R.BOUNDS[k][0] <= x <= R.BOUNDS[k][1] for k, x in zip(R.PNAMES, b)), "prepare:guess-inside-bounds", got=b)
    (v0, e2), again = call_data(t, s, m, o, default)
    mon.ok(all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(data, again)), "prepare:repeatable")
    mon.same(u0, v0, "prepare:repeatable-guess")
    # the halo decides the guess and nothing else
    m2 = (m[0] - 0.7,) + m[1:]
    (w0, _), other = call_data(t, s, m2, o, default)
    for k in (0, 2, 3, 4, 5, 8, 9, 10):
        mon.same(np.asarray(other[k]), np.asarray(data[k]), "prepare:targets-independent-of-halo", item=names[k])
    mon.state("cuts", kind, "masked" if (gw > 1e6).any() else "all", "undecided" if (a | af).any() else "decided")
    mon.sample(kind=kind, options=o, lm=T["lm"][:3], weight=gw[:6])


def loss_ref(t, T, w, wf, lgtmax, p, m, o, dlg=0.0, rel=0.0):
    sfr = 10 ** (np.maximum(R.lg_sfr(p, m, t, o["lgt0"], o["fb"]), np.log10(R.SFR_MIN)) + dlg)
    ms = R.smh(t, sfr) * (1 + rel)
    fs = R.fstar(t, ms, o["fstar_tdelay"])
    fl = ms * o["ssfrh_floor"] / 10
    lf, sfr = np.log10(np.maximum(fs, fl)), np.maximum(sfr, fl)
    dm, df = np.log10(ms) - T["lm"], lf - T["lf"]
    ds = np.clip(1e8 * (sfr - T["sfh"]) / T["ms"], -1, 1)
    out = 30 * np.mean((dm / w) ** 2) + np.mean((df / wf) ** 2) + np.mean((ds / w) ** 2) + 0.5 * df[-1] ** 2
    return out + R.sigmoid(p[4] - lgtmax, 0.0, 50.0, 100.0, 0.0)


def loss_tol(mon, rng, t, s, T, w, wf, lgtmax, p, m, o):
    L = loss_ref(t, T, w, wf, lgtmax, p, m, o)
    dl = tol_lgsfr(mon, p, m, t, o["lgt0"], o["fb"])
    d = 0.0
    n = len(t)
    for j in jitters(mon, rng, n, 6):
        g = rng.choice([-1.0, 1.0], n) if rng.random() < 0.5 else rng.choice([-1.0, 1.0])
        d = max(d, abs(loss_ref(t, targets(t, s, o, j), w, wf, lgtmax, p, m, o, g * dl, rng.permutation(j)) - L))
    pe = 2e-15 if mon.x64 else 3e-7
    for k in range(8):
        lo, hi = R.BOUNDS[R.PNAMES[k]]
        for sg in (1, -1):
            q = list(p)
            q[k] += sg * pe * (abs(q[k]) + hi - lo) * 2
            d = max(d, abs(loss_ref(t, T, w, wf, lgtmax, q, m, o) - L))
    return L, 8 * d + (1e-10 * (L + 1e-3) if mon.x64 else 2e-5 * (L + 0.5))


@CASES(quick=44, thorough=1000)
def score(mon, rng):
    """the loss at arbitrary parameters"""
    t, s, p, m, o, kind = setup(mon, rng)
    default = all(o[k] == DOC[k] for k in KEYS)
    (u0, err), data = call_data(t, s, m, o, default)
    T, tl, tf = target_tols(mon, rng, t, s, o)
    w, wf, a, af = weights(t, T, o, 0.0)
    gw, gwf = np.asarray(data[8], float), np.asarray(data[9], float)
    lgtmax = float(data[10])
    for j in range(4):
        if j == 0:
            u = np.asarray(u0, float)
        elif j == 1:
            u = rng.normal(u0, err)
        elif j == 2:
            u = rng.normal(u0, 3 * np.asarray(err))
        else:
            u = np.array([float(x) for x in R.unbound_galaxy(p)]) if np.all(np.isfinite(R.unbound_galaxy(p))) else np.asarray(u0, float)
        u = gen.f32(u)
        got = float(dfh.loss_default_clipssfrh(u, data))
        b = tuple(float(x) for x in R.bound_galaxy(list(u)))
        want, tol = loss_tol(mon, rng, t, s, T, gw, gwf, lgtmax, b, m, o)
        mon.ok(np.isfinite(got) and got >= 0, "score:finite", got=got, kind=kind, u=u)
        mon.close(got, want, tol, "score:loss", kind=kind, u=u, opts=o)
        mon.state("score", kind, "informative" if tol < 0.02 * want + 1e-3 else "coarse")
        if mon.x64:
            w2, wf2, a2, af2 = weights(t, T, o, 1e-9)
            if not (a2.any() or af2.any()):
                mon.close(got, loss_ref(t, T, w2, wf2, lgtmax, b, m, o), tol, "score:loss-from-history-alone", kind=kind, opts=o)
        # what carries no weight has no influence
        off, offf = gw > 1e6, gwf > 1e6
        offf = offf & (np.arange(len(t)) < len(t) - 1)  # the last averaged SFR enters on its own
        d2 = list(data)
        d2[3] = np.where(off, np.asarray(data[3]) + rng.normal(0, 3, len(t)), np.asarray(data[3]))
        d2[4] = np.where(off, np.asarray(data[4]) * 10 ** rng.normal(0, 2, len(t)), np.asarray(data[4]))
        d2[5] = np.where(offf, np.asarray(data[5]) + rng.normal(0, 3, len(t)), np.asarray(data[5]))
        # fresh arrays for both calls so that the same program judges both
        base = float(dfh.loss_default_clipssfrh(u, tuple(d2[:3]) + (np.asarray(data[3]), np.asarray(data[4]), np.asarray(data[5])) + tuple(d2[6:])))
        mon.close(float(dfh.loss_default_clipssfrh(u, tuple(d2))), base, (1e-12 if mon.x64 else 1e-6) * (1e-3 + base), "score:unweighted-entries-do-not-matter", kind=kind)
    g = dfh.loss_grad_default_clipssfrh_np(u, data)
    mon.ok(isinstance(g, np.ndarray) and g.dtype == np.float64 and g.shape == (8,) and np.isfinite(g).all(), "score:gradient-array", got=g)


def run_fit(mon, rng, t, s, m, o, kind, seed, default):
    T, tl, tf = target_tols(mon, rng, t, s, o)
    kw = dict(kind=kind, m=m, opts=o)
    tc, sc = t.copy(), s.copy()
    M = mah(m)
    np.random.seed(seed)
    pb, L, okc = dfh.diffstar_fitter(tc, sc, M, **({} if default else o))
    mon.ok(np.array_equal(tc, t) and np.array_equal(sc, s) and tuple(M) == tuple(m), "fit:inputs-unmodified", **kw)
    mon.ok(tuple(pb._fields) == R.PNAMES, "fit:parameter-names", got=pb._fields)
    b = tuple(float(x) for x in pb)
    e = 1e-5 if not mon.x64 else 1e-12
    mon.ok(all(R.BOUNDS[k][0] - e <= x <= R.BOUNDS[k][1] + e for k, x in zip(R.PNAMES, b)) and b[7] >= b[6] - e, "fit:inside-bounds", got=b, **kw)
    mon.ok(okc == 1 and np.isfinite(L), "fit:success", got=okc, loss=L, **kw)
    amb = 1e-9 if mon.x64 else float(np.max(tl)) * 3 + float(np.max(tf)) * 3
    w, wf, a, af = weights(t, T, o, amb)
    best = np.inf
    res = None
    cand = np.flatnonzero(T["lf"] >= T["lf"].max() - 2 * tf.max())
    for i in cand[:: max(1, len(cand) // 60)]:
        want, tol = loss_tol(mon, rng, t, s, T, w, wf, np.log10(t[i]), b, m, o)
        if res is None or abs(want - L) / tol < best:
            best, res = abs(want - L) / tol, (want, tol)
    if not (a.any() or af.any()):
        mon.close(L, res[0], res[1], "fit:loss-belongs-to-parameters", p=b, **kw)
        mon.state("fit", kind, "judged")
    else:
        mon.state("fit", kind, "undecided")
    return b, float(L), okc


@CASES(quick=12, thorough=200)
def fit(mon, rng):
    """any history, any options"""
    t, s, p, m, o, kind = setup(mon, rng, n=40, default=mon.rep % 3 == 0)
    default = all(o[k] == DOC[k] for k in KEYS)
    seed = int(rng.integers(2**31))
    b, L, okc = run_fit(mon, rng, t, s, m, o, kind, seed, default)
    np.random.seed(seed)
    pb, L2, ok2 = dfh.diffstar_fitter(t, s, mah(m), **({} if default else o))
    mon.same(np.array([float(x) for x in pb]), np.array(b), "fit:repeatable", kind=kind)
    mon.ok(float(L2) == L and ok2 == okc, "fit:repeatable-loss")
    mon.sample(kind=kind, loss=L, p=b)


@CASES(quick=3, thorough=20)
def recover(mon, rng):
    """histories the model can produce are fitted well"""
    Ls, seen = [], []
    n = 14
    for k in range(n):
        st = ("default", "uniform", "uspace")[k % 3]
        t, s, p, m, o, kind = setup(mon, rng, "model", (st,), ("default", "uniform", "neverpeak"), n=50, default=k % 2 == 0)
        o["dlogm_cut"], o["t_fit_min"] = max(o["dlogm_cut"], 2.0), min(o["t_fit_min"], 2.0)
        default = all(o[q] == DOC[q] for q in KEYS)
        # the true parameters score (almost) nothing, unless quenching precedes the SFR peak
        T = targets(t, s, o)
        w, wf, _, _ = weights(t, T, o, 0)
        true = loss_ref(t, T, w, wf, np.log10(t[np.argmax(T["lf"])]), p, m, o)
        b, L, okc = run_fit(mon, rng, t, s, m, o, kind, int(rng.integers(2**31)), default)
        if true < 0.01 and np.log10(R.smh(t, s)[-1]) > 4:
            Ls.append(L)
    Ls = np.array(Ls)
    mon.ok(np.median(Ls) < 0.1, "recover:median-loss", got=Ls)
    mon.ok(np.mean(Ls < 1.0) >= 0.75, "recover:most-fits-small", got=Ls)
    mon.sample(losses=np.sort(Ls))
    mon.state("recover", len(Ls))
