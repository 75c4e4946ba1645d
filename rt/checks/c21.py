"""C21: calls are pure: history, threads, compilation context and array type do not matter."""

import gc
import json
import os
import subprocess
import sys
import threading
import time
from collections import namedtuple

import jax
import jax.numpy as jnp
import jax.random as jran
import numpy as np

import diffstar
from diffstar import calc_mgas_galpop, calc_mgas_singlegal, calc_sfh_galpop, calc_sfh_singlegal
from diffstar import utils as du
from diffstar import diffstarpop as dp
from diffstar.diffstarpop import mc_diffstarpop_mgash as mcd
from diffstar.diffstarpop import param_utils as pu
from diffstar.diffstarpop import utils as pou
from diffstar.diffstarpop.kernels import satquenchpop_model as sq
from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh
from diffstar.fitting_helpers import utils as fu

from .. import core, gen
from .. import refmodel as R
from ..lib import MAH, eps, row

CASES = core.Registry()
RULE = (
    "Each execution records the results of a set of calls (function, shapes, options) and repeats them under another history, from "
    "concurrent threads, uncompiled, inside larger programs, from another container, or in another process; a class is "
    "(context, function, shape class). Thread executions also log start/end events and count overlapping pairs."
)
ASSUMPTIONS = [
    "bitwise equality is demanded of identical calls; a call compiled in another context may differ by rounding",
    "the fitter draws its starts from NumPy's global generator as documented and is therefore judged under a fixed seed",
]


# ---- the catalogue of calls ----------------------------------------------
def flat(out):
    # copies: a record must not share memory with what the call returned
    return [np.array(x) for x in jax.tree_util.tree_leaves(out) if not isinstance(x, str)]


def common(rng, n, nt):
    t = gen.grid(rng, nt, kind=("lin", "log", "random")[int(rng.integers(3))])[0]
    p, _ = gen.galaxy(rng, n, ("default", "uniform", "uspace", "norejuv", "deep"))
    m, _ = gen.halo(rng, n, t, strata=("default", "uniform", "earlypeak", "neverpeak", "cluster"))
    up, a1, a2, a3 = gen.satellites(rng, n)
    p, m = gen.f32t(p), gen.f32t(m)
    key = np.asarray(jran.PRNGKey(int(rng.integers(2**31))))
    c = dict(t=t, p=p, m=m, up=up, a1=a1, a2=a2, a3=a3, key=key, n=n)
    c["x"] = gen.f32(np.clip(m[0] + rng.normal(0, 0.2, n), 9, 16))
    c["lgt0"], c["fb"] = float(np.float32(np.log10(rng.uniform(13.5, 14.5)))), float(np.float32(rng.uniform(0.1, 0.2)))
    d = gen.pop_dict(rng, "near", base=POP0)
    c["pop"] = dp.DiffstarPopParams(**{k: d[k] for k in dp.DiffstarPopParams._fields})
    return c


POP0 = {k: float(v) for k, v in dp.DEFAULT_DIFFSTARPOP_PARAMS._asdict().items()}


def _line(x, y0):
    return pou.smoothly_clipped_line(x, 12.0, y0, 0.7, 0.0, 1.0)


def build(rng, which=None, n=None, nt=None):
    """list of (label, function, args pytree of arrays, static keyword arguments)"""
    n = n or int(rng.choice([2, 5]))
    nt = nt or int(rng.choice([6, 15]))
    c = common(rng, n, nt)
    G, g1, m1 = diffstar.DiffstarParams(*c["p"]), diffstar.DiffstarParams(*row(c["p"], 0)), MAH(*row(c["m"], 0))
    M = MAH(*c["m"])
    t, kw = c["t"], dict(lgt0=c["lgt0"], fb=c["fb"])
    pos = (c["pop"], M, c["x"], c["up"], c["a1"], c["a2"], c["a3"], c["key"], t)
    one = (c["pop"], m1, float(c["x"][0]), int(c["up"][0]), float(c["a1"][0]), float(c["a2"][0]), float(c["a3"][0]), c["key"], t)
    par = (c["pop"], c["x"], c["m"][4], c["up"], c["a1"], c["a2"], c["a3"], c["key"])
    par1 = (c["pop"], one[2], float(c["m"][4][0]), *one[3:8])
    k1, k2 = float(rng.uniform(0.3, 2)), float(rng.uniform(-1, 1))
    s = R.sfr(c["p"] and R.col(c["p"]), R.col(c["m"]), t, c["lgt0"], c["fb"])
    A = rng.normal(0, 1, (n, n))
    cov = A @ A.T + 0.3 * np.eye(n)
    out = [
        ("sfh1", calc_sfh_singlegal, (g1, m1, t), kw),
        ("sfh1+smh", calc_sfh_singlegal, (g1, m1, t), dict(return_smh=True, **kw)),
        ("sfhN", calc_sfh_galpop, (G, M, t), kw),
        ("sfhN+smh", calc_sfh_galpop, (G, M, t), dict(return_smh=True, **kw)),
        ("gas1", calc_mgas_singlegal, (g1, m1, t), kw),
        ("gasN", calc_mgas_galpop, (G, M, t), kw),
        ("gas1-default", calc_mgas_singlegal, (g1, m1, t), {}),
        ("bound", diffstar.get_bounded_diffstar_params, (diffstar.DiffstarUParams(*g1),), {}),
        ("unbound", diffstar.get_unbounded_diffstar_params, (diffstar.DEFAULT_DIFFSTAR_PARAMS._replace(lgmcrit=11.0 + 0.3 * k1, lg_qt=0.5 + 0.2 * k1),), {}),
        ("popbound", dp.get_bounded_diffstarpop_params, (dp.DEFAULT_DIFFSTARPOP_U_PARAMS._replace(**{dp.DiffstarPopUParams._fields[3]: k2}),), {}),
        ("popunbound", dp.get_unbounded_diffstarpop_params, (c["pop"],), {}),
        ("mstar1", du.cumulative_mstar_formed, (t, gen.f32(s[0])), {}),
        ("mstarN", du.cumulative_mstar_formed_galpop, (t, gen.f32(s)), {}),
        ("fstar", du.compute_fstar, (t, gen.f32(R.smh(t, s[0])), k1), {}),
        ("line", _line, (np.linspace(9, 15, nt), k2), {}),
        ("corr", pou.correlation_from_covariance, (cov,), {}),
        ("cov", pou.covariance_from_correlation, (cov / np.sqrt(np.outer(np.diag(cov), np.diag(cov))), np.sqrt(np.diag(cov))), {}),
        ("qsat", sq.get_qprob_sat, (sq.DEFAULT_SATQUENCHPOP_PARAMS, c["a1"], c["a2"], c["a3"], rng.uniform(0, 1, n)), {}),
        ("select", pu.mc_select_diffstar_params, (G, diffstar.DiffstarParams(*[x + k2 for x in c["p"]]), rng.random(n) < 0.5), {}),
        ("mc1", mcd.mc_diffstar_params_singlegal, par1, {}),
        ("mcN", mcd.mc_diffstar_params_galpop, par, {}),
        ("mcsfh1", mcd.mc_diffstar_sfh_singlegal, one, kw),
        ("mcsfhN", mcd.mc_diffstar_sfh_galpop, pos, kw),
        ("mcuN", mcd.mc_diffstar_u_params_galpop, par, {}),
    ]
    ix = np.clip(np.searchsorted(t, t + 1e-3), 1, nt - 1)
    out += [
        ("dt", du._get_dt_array, (t,), {}),
        ("dt-jax", du._jax_get_dt_array, (t,), {}),
        ("1d", du.get_1d_arrays, (t, k1, 3), {}),
        ("cumtrapz", du.cumtrapz, (t, gen.f32(s[0])), {}),
        ("interp", du.jax_np_interp, (t + 1e-3, t, gen.f32(s[0]), ix), {}),
        ("sigmoid", du._sigmoid, (t, k1, 2.0, k2, 3.0), {}),
        ("weights", weights, (t, gen.f32(R.smh(t, s[0])), gen.f32(s[0]), k1), {}),
        ("all-params", all_params, (k1, k2, 0.5, 0.25), {}),
    ]
    tf = np.linspace(0.3, 10 ** c["lgt0"], 12 + nt)
    sf = gen.f32(R.sfr(row(c["p"], 0), row(c["m"], 0), tf, c["lgt0"], c["fb"]))
    out += [
        ("targets", dfh.get_loss_data_default, (tf, sf, m1), dict(fstar_tdelay=k1, **kw)),
        ("fitloss", fit_loss, (tf, sf, m1, rng.normal(0, 0.3, 8)), kw),
    ]
    if which is not None:
        out = [o for o in out if o[0] in which]
    return out


def fit_loss(t, s, m, du_, lgt0, fb):
    (u, err), data = dfh.get_loss_data_default(t, s, m, lgt0=lgt0, fb=fb)
    u = np.asarray(u) + du_
    return dfh.loss_default_clipssfrh(u, data), dfh.loss_grad_default_clipssfrh_np(u, data)


def weights(t, smh, sfh, delay):
    lg = np.log10(np.clip(smh, 1e-30, None))
    fs = np.log10(np.clip(sfh, 1e-30, None))
    return dfh.get_weights(t, lg, fs, delay, 3.5, 1.0, 7.0)


Varied = namedtuple("Varied", ["u_" + f for f in dp.DiffstarPopParams._fields[2:30:9]])


def all_params(*x):
    return pu.get_all_diffstarpop_u_params(Varied(*x))


NUMPY_ONLY = ("targets", "fitloss", "dt", "1d", "weights")  # these accept concrete arrays only, by construction
SCALAR_OK = tuple(x for x in ("sfh1", "sfh1+smh", "gas1", "bound", "unbound", "mc1", "mcsfh1", "fstar"))


def agree(mon, got, want, oracle, /, tight=False, **kw):
    """same structure, same values to rounding; tight: bitwise"""
    a, b = flat(got), flat(want)
    if not mon.ok(len(a) == len(b), oracle + ":structure", got=len(a), want=len(b), **kw):
        return
    for i, (x, y) in enumerate(zip(a, b)):
        if tight:
            mon.same(x, y, oracle, leaf=i, **kw)
            continue
        if not mon.ok(x.shape == y.shape, oracle + ":shape", got=x.shape, want=y.shape, leaf=i, **kw):
            continue
        x, y = x.astype(float), y.astype(float)
        e = 1e-7 if mon.x64 else 2e-2
        scale = np.abs(y) + (1e-9 if mon.x64 else 1e-3) * (np.abs(y).max() if y.size else 0) + (1e-12 if mon.x64 else 1e-4)
        fin = np.isfinite(y)
        mon.ok(np.isfinite(x) == fin, oracle + ":finite", leaf=i, **kw)
        mon.close(np.where(fin, x, 0), np.where(fin, y, 0), e * np.where(fin, scale, 1), oracle, leaf=i, **kw)


def confuse(a, kind):
    """the same call with slightly other numbers: same shapes, ends and types, so only a careless summary confuses the two"""

    def f(x):
        if isinstance(x, np.ndarray) and x.ndim and x.dtype.kind == "f" and x.shape[-1] > 2:
            y = x.copy()
            if kind == "interior":
                y[..., 1:-1] = x[..., 1:-1] + 0.25 * np.minimum(0.2, x[..., 2:] - x[..., 1:-1])
            else:  # a change below printing precision of usual keys
                y[..., 1:] = x[..., 1:] * (1 + 3e-4)
            return y
        if isinstance(x, np.ndarray) and x.dtype == np.uint32:
            y = x.copy()
            y[..., -1] += 1
            return y
        if isinstance(x, float) and kind == "digits":
            return x * (1 + 3e-4)
        return x

    return jax.tree_util.tree_map(f, a)


def confused(call, kind):
    lab, f, a, kw = call
    return (lab, f, confuse(a, kind), kw if kind == "interior" or lab in ("targets", "fitloss") else {k: v if isinstance(v, bool) else v * (1 + 1e-5) for k, v in kw.items()})


def copy_tree(a):
    return jax.tree_util.tree_map(lambda x: x.copy() if isinstance(x, np.ndarray) else x, a)


def lock(a):
    def f(x):
        if isinstance(x, np.ndarray):
            x = x.copy()
            x.flags.writeable = False
        return x

    return jax.tree_util.tree_map(f, a)


def same_tree(a, b):
    return all(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True) for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)))


def published():
    """every public constant of every loaded diffstar module"""
    out = {}
    for name, mod in sorted(sys.modules.items()):
        if not name.startswith("diffstar") or ".tests" in name or mod is None:
            continue
        for k, v in vars(mod).items():
            if not k.isupper() or k.startswith("_"):
                continue
            if isinstance(v, (int, float, str, tuple, list, dict, np.ndarray)):
                out[name + "." + k] = repr(v)
    return out


def rng_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:])


class Watch:
    """inputs, published constants and the global generator must come out as they went in"""

    def __init__(self, mon):
        self.mon = mon

    def __enter__(self):
        self.pub, self.rng, self.x64 = published(), rng_state(), jax.config.jax_enable_x64
        return self

    def __exit__(self, *a):
        if a[0] is None:
            now = published()
            for k, v in self.pub.items():
                self.mon.ok(now.get(k) == v, "constants-unchanged", name=k, got=now.get(k), want=v)
            self.mon.ok(rng_state() == self.rng, "global-generator-unchanged")
            self.mon.ok(jax.config.jax_enable_x64 == self.x64, "configuration-unchanged")


def run(call):
    _, f, a, kw = call
    return jax.block_until_ready(f(*a, **kw)) if True else None


# ---- cases -----------------------------------------------------------------
@CASES(quick=4, thorough=30)
def history(mon, rng):
    """the same calls again after other calls, other shapes, other options, garbage collection and cleared caches"""
    with Watch(mon):
        calls = build(rng)
        host = [c for c in calls if c[0] in NUMPY_ONLY]  # plain NumPy code: the only calls whose results are writable
        rest = [c for c in calls if c[0] not in NUMPY_ONLY]
        pick = host + [rest[i] for i in rng.permutation(len(rest))[:8]]
        base = []
        for c in pick:
            keep = copy_tree(c[2])
            base.append(flat(run(c)))
            mon.ok(same_tree(keep, c[2]), "inputs-unmodified", call=c[0])
        other = build(rng, n=3, nt=int(rng.choice([7, 20])))
        for i in rng.permutation(len(other))[:8]:
            run(other[i])
        for i in rng.permutation(len(pick)):
            agree(mon, flat(run(pick[i])), base[i], "history:same-after-other-calls", tight=True, call=pick[i][0])
            mon.state("history", pick[i][0])
        # results belong to the caller: overwriting them does not reach later calls
        for i in rng.permutation(len(pick)):
            lab, f, a, kw = pick[i]
            out = jax.block_until_ready(f(*copy_tree(a), **kw))  # a result may hold the arrays it was given
            for x in jax.tree_util.tree_leaves(out):
                if isinstance(x, np.ndarray) and x.flags.writeable:
                    x[...] = -77
                    mon.state("overwritten", lab)
            agree(mon, flat(run(pick[i])), base[i], "history:same-after-results-overwritten", tight=True, call=pick[i][0])
        # the caller's arrays belong to the caller: refilled with other numbers, they mean those numbers
        for i in rng.permutation(len(pick)):
            lab, f, a, kw = pick[i]
            b = confuse(a, ("interior", "digits")[mon.rep % 2])
            mine = copy_tree(a)
            jax.block_until_ready(f(*mine, **kw))
            for x, y in zip(jax.tree_util.tree_leaves(mine), jax.tree_util.tree_leaves(b)):
                if isinstance(x, np.ndarray) and x.ndim:
                    x[...] = y
            fresh = jax.tree_util.tree_map(lambda x: x.copy() if isinstance(x, np.ndarray) else x, mine)
            agree(mon, flat(f(*mine, **kw)), flat(f(*fresh, **kw)), "history:refilled-input", tight=True, call=lab)
            mon.state("refilled", lab)
        if mon.rep % 2:
            jax.clear_caches()
            gc.collect()
            for i in rng.permutation(len(pick))[:4]:
                agree(mon, flat(run(pick[i])), base[i], "history:same-after-recompilation", call=pick[i][0])
                mon.state("recompiled", pick[i][0])
        if mon.rep == 0:  # nor does it matter how many times
            for i in rng.permutation(len(pick)):
                t0, k = time.perf_counter(), 0
                while k < 1200 and time.perf_counter() - t0 < 1.0:
                    out = run(pick[i])
                    k += 1
                agree(mon, flat(out), base[i], "history:same-after-many-calls", tight=True, call=pick[i][0])
                mon.state("many", pick[i][0], int(np.log2(k)))
        mon.sample(calls=[c[0] for c in pick])


@CASES(quick=4, thorough=30)
def threads(mon, rng):
    """eight threads, each its own order; a ninth perturbs the schedule"""
    with Watch(mon):
        calls = build(rng)
        pick = [calls[i] for i in rng.permutation(len(calls))[:8]]
        if mon.rep % 2 == 0:  # serial results first: the threads share compiled programs
            base = [flat(run(c)) for c in pick]
        nth, per = 8, 12
        plans = [[int(x) for x in rng.integers(0, len(pick), per)] for _ in range(nth)]
        delays = rng.exponential(2e-4, (nth, per))
        log, errs, res = [], [], [[None] * per for _ in range(nth)]
        gate = threading.Barrier(nth + 1)
        stop = threading.Event()

        def worker(k):
            try:
                gate.wait()
                for j, i in enumerate(plans[k]):
                    time.sleep(delays[k][j])
                    t0 = time.perf_counter()
                    a = lock(pick[i][2])
                    out = flat(jax.block_until_ready(pick[i][1](*a, **pick[i][3])))
                    log.append((k, i, t0, time.perf_counter()))
                    res[k][j] = out
            except Exception as e:  # noqa
                errs.append(repr(e)[:300])

        def disturb():
            gate.wait()
            while not stop.is_set():
                gc.collect(0)
                time.sleep(1e-3)

        old = sys.getswitchinterval()
        sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 1e-3])))
        try:
            ts = [threading.Thread(target=worker, args=(k,)) for k in range(nth)]
            d = threading.Thread(target=disturb)
            for x in ts + [d]:
                x.start()
            for x in ts:
                x.join()
            stop.set()
            d.join()
        finally:
            sys.setswitchinterval(old)
        mon.ok(not errs, "threads:no-exception", errors=errs[:3])
        if errs:
            return
        if mon.rep % 2:
            base = [flat(run(c)) for c in pick]
        for k in range(nth):
            for j, i in enumerate(plans[k]):
                agree(mon, res[k][j], base[i], "threads:same-as-serial", tight=True, call=pick[i][0], thread=k)
        ev = sorted(log, key=lambda e: e[2])
        pairs = set()
        for a in range(len(ev)):
            for b in range(a + 1, len(ev)):
                if ev[b][2] >= ev[a][3]:
                    break
                pairs.add(tuple(sorted((pick[ev[a][1]][0], pick[ev[b][1]][0]))))
        mon.ok(len(pairs) > 0, "threads:calls-overlapped")
        for p in pairs:
            mon.state("overlap", *p)
        mon.sample(events=len(log), overlapping_pairs=len(pairs))


@CASES(quick=1, thorough=8)
def host_threads(mon, rng):
    """the plain NumPy code has no compiled program to protect it: many threads in it at once, each call with one of two near-twin inputs"""
    with Watch(mon):
        t = gen.f32(np.sort(rng.uniform(0.3, 13.8, 600)))
        smh = gen.f32(np.cumsum(rng.uniform(0, 1, 600)) * 1e8 + 1e7)
        sfh = gen.f32(rng.uniform(0.01, 10, 600))
        one = [
            ("weights", weights, (t, smh, sfh, 0.7), {}),
            ("dt", du._get_dt_array, (t,), {}),
            ("1d", du.get_1d_arrays, (t, 0.3, 3), {}),
            ("outline", dfh.get_outline, (int(rng.integers(2**50)), rng.normal(size=8), 0.25, 1), {}),
        ]
        two = [(lab, f, confuse(a, "interior") if lab != "outline" else (7, -a[1], 0.5, 1), kw) for lab, f, a, kw in one]
        two[0] = (*two[0][:2], (two[0][2][0], gen.f32(smh**0.3), two[0][2][2], 1.3), {})
        pick = one + two
        text = lambda x: [np.array([ord(c) for c in v]) if isinstance(v, str) else v for v in jax.tree_util.tree_leaves(x)]  # noqa
        base = [flat(text(run(c))) for c in pick]
        rounds = 60 if mon.tier == "quick" else 200
        errs, bad, spans = [], [], []
        gate = threading.Barrier(8)

        def worker(k):
            try:
                gate.wait()
                for lab in range(len(one)):
                    i = lab + len(one) * (k % 2)
                    _, f, a, kw = pick[i]
                    t0 = time.perf_counter()
                    res = [f(*a, **kw) for _ in range(rounds)]
                    spans.append((t0, time.perf_counter(), pick[i][0], k % 2))
                    for r in res:
                        if not same_tree(flat(text(r)), base[i]):
                            bad.append((pick[i][0], k % 2))
            except Exception as e:  # noqa
                errs.append(repr(e)[:300])

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=worker, args=(k,)) for k in range(8)]
            for x in ts:
                x.start()
            for x in ts:
                x.join()
        finally:
            sys.setswitchinterval(old)
        mon.ok(not errs, "host-threads:no-exception", errors=errs[:3])
        for lab in range(len(one)):
            n = sum(b[0] == one[lab][0] for b in bad)
            mon.ok(n == 0, "host-threads:same-as-serial", call=one[lab][0], wrong=n, of=8 * rounds)
        over = {(a[2], a[3] != b[3]) for a in spans for b in spans if a is not b and a[2] == b[2] and a[0] < b[1] and b[0] < a[1]}
        mon.ok(len(over) > 0, "host-threads:calls-overlapped")
        for o in over:
            mon.state("host-overlap", *o)


@CASES(quick=4, thorough=24)
def uncompiled(mon, rng):
    """the same call with compilation switched off"""
    with Watch(mon):
        cheap = ("sfh1", "sfh1+smh", "gas1", "bound", "unbound", "popbound", "popunbound", "mstar1", "fstar", "line", "corr", "cov", "qsat", "select", "mc1", "mcN", "sfhN", "gasN")
        calls = build(rng, which=cheap, n=2, nt=6)
        for i in rng.permutation(len(calls))[: 5 if mon.tier == "quick" else 9]:
            c = calls[i]
            want = flat(run(c))
            with jax.disable_jit():
                got = flat(c[1](*c[2], **c[3]))
            agree(mon, got, want, "uncompiled", call=c[0])
            mon.state("uncompiled", c[0])


@CASES(quick=4, thorough=24)
def nested(mon, rng):
    """inside a larger compiled, vectorised or looped program"""
    with Watch(mon):
        names = ("sfh1", "sfh1+smh", "sfhN", "gas1", "gasN", "bound", "unbound", "popbound", "popunbound", "mstar1", "mstarN", "fstar", "line", "corr", "cov", "qsat", "select", "mc1", "mcN", "mcsfh1", "mcsfhN", "mcuN")
        sets = [build(np.random.default_rng(int(rng.integers(2**31))), which=names, n=3, nt=6) for _ in range(3)]
        sets = [s for s in sets if all(np.shape(x) == np.shape(y) for a, b in zip(s, sets[0]) for x, y in zip(jax.tree_util.tree_leaves(a[2]), jax.tree_util.tree_leaves(b[2])))]
        for i in rng.permutation(len(sets[0]))[: 4 if mon.tier == "quick" else 7]:
            lab, f, _, kw = sets[0][i]
            static = {k: v for k, v in kw.items() if k == "return_smh"}
            dyn = [{k: v for k, v in s[i][3].items() if k != "return_smh"} for s in sets]
            args = [jax.tree_util.tree_map(jnp.asarray, s[i][2]) for s in sets]
            want = [flat(run(s[i])) for s in sets]
            g = lambda a, d: f(*a, **d, **static)  # noqa
            got = flat(jax.jit(lambda a, d: jax.tree_util.tree_map(lambda x: x + 0, g(a, d)))(args[0], dyn[0]))
            agree(mon, got, want[0], "nested:compiled", call=lab)
            st = jax.tree_util.tree_map(lambda *x: jnp.stack([jnp.asarray(q) for q in x]), *[(a, d) for a, d in zip(args, dyn)])
            got = [np.asarray(x) for x in jax.tree_util.tree_leaves(jax.jit(jax.vmap(g))(*st))]
            for j in range(len(sets)):
                agree(mon, [x[j] for x in got], want[j], "nested:vectorised", call=lab)
            got = [np.asarray(x) for x in jax.tree_util.tree_leaves(jax.lax.map(lambda ad: g(*ad), st))]
            for j in range(len(sets)):
                agree(mon, [x[j] for x in got], want[j], "nested:looped", call=lab)
            mon.state("nested", lab, len(sets))


def variants(rng, x):
    """other representations of the same numbers"""
    if isinstance(x, np.ndarray) and x.ndim:
        out = {
            "jax": lambda: jnp.asarray(x),
            "readonly": lambda: lock(x),
            "strided": lambda: np.repeat(x, 2, axis=-1)[..., ::2],
            "reversed": lambda: x[..., ::-1].copy()[..., ::-1],
            "offset": lambda: np.concatenate([x[:1], x])[1:],
            "fortran": lambda: np.asfortranarray(x),
        }
        return out
    if isinstance(x, (float, np.floating)):
        return {"np0d": lambda: np.asarray(x), "npscalar": lambda: np.float64(x), "jax0d": lambda: jnp.asarray(x), "float": lambda: float(x)}
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return {"npint": lambda: np.int64(x), "jaxint": lambda: jnp.asarray(x), "int": lambda: int(x)}
    return {"same": lambda: x}


@CASES(quick=4, thorough=60)
def containers(mon, rng):
    """NumPy or JAX, any layout, read-only, scalar kinds"""
    with Watch(mon):
        calls = build(rng, n=3, nt=6)
        for i in rng.permutation(len(calls))[: 6 if mon.tier == "quick" else 9]:
            lab, f, a, kw = calls[i]
            want = flat(run(calls[i]))
            leaves, tdef = jax.tree_util.tree_flatten(a)
            for _ in range(2 if mon.tier == "quick" else 3):
                names = []
                sk = int(rng.integers(12))  # one kind for all scalars of a call
                new = []
                for x in leaves:
                    v = variants(rng, x)
                    v = {k: q for k, q in v.items() if not (lab in NUMPY_ONLY and k.startswith("jax"))}
                    k = list(v)[(int(rng.integers(12)) if isinstance(x, np.ndarray) and x.ndim else sk) % len(v)]
                    names.append(k)
                    new.append(v[k]())
                kn = {k: (v if isinstance(v, bool) else (lambda d: d[list(d)[sk % len(d)]]())(variants(rng, v)) if lab not in NUMPY_ONLY else v) for k, v in kw.items()}
                got = flat(jax.block_until_ready(f(*jax.tree_util.tree_unflatten(tdef, new), **kn)))
                agree(mon, got, want, "containers", call=lab, kinds=sorted(set(names)))
                for k in set(names):
                    mon.state("containers", lab, k)
        # numbers of either precision that hold the same value (single-precision mode computes alike)
        if not mon.x64:
            for lab, f, a, kw in [c for c in calls if c[0] in ("sfh1", "sfhN", "gas1", "gasN", "mcN")]:
                b = jax.tree_util.tree_map(lambda x: x.astype(np.float32) if isinstance(x, np.ndarray) and x.dtype == np.float64 else x, a)
                agree(mon, flat(f(*b, **kw)), flat(f(*a, **kw)), "containers:precision-of-input", call=lab)
                mon.state("containers", lab, "float32")


@CASES(quick=1, thorough=12)
def layouts(mon, rng):
    """every call, its arrays all stored the same unusual way (no call is left to chance)"""
    with Watch(mon):
        for lab, f, a, kw in build(rng, n=3, nt=6):
            want = flat(run((lab, f, a, kw)))
            for kind in ("jax", "readonly", "strided", "reversed", "offset", "fortran"):
                if kind == "jax" and lab in NUMPY_ONLY:
                    continue
                b = jax.tree_util.tree_map(lambda x: variants(rng, x)[kind]() if isinstance(x, np.ndarray) and x.ndim else x, a)
                agree(mon, flat(jax.block_until_ready(f(*b, **kw))), want, "layouts", call=lab, kind=kind)
                mon.state("layouts", lab, kind)


@CASES(quick=1, thorough=6)
def fitter(mon, rng):
    """the fitter under a fixed seed: repeatable, inputs and constants untouched"""
    t = np.linspace(0.3, 13.8, 25)
    p, _ = gen.galaxy(rng, 1, ("uniform",))
    m, _ = gen.halo(rng, 1, t, strata=("default",))
    s = R.sfr(row(p, 0), row(m, 0), t, np.log10(13.8), 0.156)
    pub = published()
    out = []
    for k in range(2):
        np.random.seed(7)
        out.append(flat(dfh.diffstar_fitter(lock(t), lock(s), MAH(*row(m, 0)))))
        for c in build(rng, which=("sfhN", "mcN", "targets")):
            run(c)
    agree(mon, out[1], out[0], "fitter:repeatable", tight=True)
    # a fit may draw from the global generator; it never replaces the sequence the caller is in
    def quad(x, d):
        return float(((x - d) ** 2).sum())

    for nm, fit in (
        ("fitter", lambda: dfh.diffstar_fitter(lock(t), lock(s), MAH(*row(m, 0)))),
        ("wrapper", lambda: fu.minimizer_wrapper(quad, lambda x, d: 2 * (x - d), (np.zeros(3), np.ones(3)), np.arange(3.0))),
    ):
        after = []
        for seed in (7, 8, 12345):
            np.random.seed(seed)
            fit()
            after.append(rng_state())
            fit()
            after.append(rng_state())
        mon.ok(len({after[i] for i in (0, 2, 4)}) == 3 and len({after[i] for i in (1, 3, 5)}) == 3, "fitter:global-generator-reseeded", which=nm)
    mon.ok(published() == pub, "fitter:constants-unchanged")
    mon.state("fitter")


CHILD = """
import sys, json
sys.path[:0] = [%r, %r]
import jax
jax.config.update("jax_enable_x64", %r)
import numpy as np
from rt.checks import c21
print("RESULT " + json.dumps(c21.digest(%d, %d)))
"""


def digest(seed, order):
    """results of a fixed set of calls, each with two near-twins, executed in a given order"""
    calls = build(np.random.default_rng(seed), n=3, nt=6)
    calls = [calls[i] for i in np.random.default_rng(seed + 1).permutation(len(calls))[:16]]
    always = [c for c in build(np.random.default_rng(seed + 2), which=("dt", "1d", "sfhN", "mstar1", "targets"), n=3, nt=6)]
    calls = [(c, k) for c in calls + always for k in ("as-is", "interior", "digits")]
    out = {}
    for i in np.random.default_rng(order).permutation(len(calls)):
        c, k = calls[i]
        c = c if k == "as-is" else confused(c, k)
        out[str(int(i))] = [c[0], [np.asarray(x, float).ravel().tolist() for x in flat(run(c))]]
    return out


@CASES(quick=1, thorough=4)
def processes(mon, rng):
    """fresh processes that execute the calls in different orders"""
    seed = int(rng.integers(2**20))
    kids = []
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "0"
    for k in range(3):
        env["PYTHONHASHSEED"] = str(k)
        kids.append(subprocess.Popen([sys.executable, "-c", CHILD % (core.REPO, core.VERIF, mon.x64, seed, 100 + k)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(env)))
    res = []
    for k in kids:
        o, e = k.communicate(timeout=600)
        line = [x for x in o.splitlines() if x.startswith("RESULT ")]
        if not mon.ok(k.returncode == 0 and bool(line), "processes:ran", err=e[-500:]):
            return
        res.append(json.loads(line[0][7:]))
    for r in res[1:]:
        for i in res[0]:
            mon.ok(r[i][0] == res[0][i][0], "processes:same-call")
            agree(mon, [np.array(x) for x in r[i][1]], [np.array(x) for x in res[0][i][1]], "processes:same-results", call=res[0][i][0])
            mon.state("processes", res[0][i][0])
    # the near-twins are told apart at all
    for i in range(0, len(res[0]), 3):
        a, b = res[0][str(i)], res[0][str(i + 1)]
        if a[0] in ("dt", "sfhN", "mstar1", "gasN"):
            mon.ok(a[1] != b[1], "processes:twins-differ", call=a[0])
