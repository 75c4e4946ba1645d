"""C17: optimiser drivers under enumerated faults.

The loss and gradient handed to the drivers are stand-ins that record every call and
inject a planned outcome per restart (or per step); the oracle is an offline checker
over that event log and the returned values.
"""

import itertools

import jax.numpy as jnp
import numpy as np

from diffstar.diffstarpop import utils as pu
from diffstar.fitting_helpers import utils as fu

from .. import core
from ..lib import eps

CASES = core.Registry()
RULE = (
    "Each execution runs a driver on a recording loss whose outcome per restart (good, poor, NaN/inf loss, NaN gradient, late NaN) or "
    "per step is enumerated; classes are (driver, fault sequence) and, for Adam, (fault kind, step at which it strikes)."
)
ASSUMPTIONS = [
    "restarts are recognised by their location: the first coordinate of the stand-in problem is never moved by the optimiser, so a new value is a new random draw",
    "how many redraws one start may use on invalid gradients is learned from the driver itself",
]
FILL = 999.99
TOL = 0.1


class Landscape:
    """The k-th start gets the k-th planned outcome.

    Coordinate 0 only names the start: neither the loss nor the gradient depends on it, so
    the optimiser never moves it, and a new value means a new random draw.
    """

    def __init__(self, plan, redraws, ndim=3):
        self.plan, self.redraws, self.nd = list(plan), redraws, ndim
        self.known = {}
        self.cur = None
        self.log = []
        self.pos = self.used = self.ngrad = self.nloss = 0

    def start(self, p):
        key = float(p[0])
        if not np.isfinite(key):
            return self.cur
        if key not in self.known:
            kind, val = self.plan[min(self.pos, len(self.plan) - 1)]
            if kind == "nangrad":
                self.used += 1
                if self.used >= self.redraws:
                    self.pos, self.used = self.pos + 1, 0
                    self.log.append((kind, None))
            elif kind == "redraw":  # one bad draw inside a start that then goes on
                self.pos, self.used = self.pos + 1, self.used + 1
            else:
                self.pos, self.used = self.pos + 1, 0
                self.log.append((kind, val))
            self.known[key] = (kind, val, np.array(p[1:], float) + 0.3)
        self.cur = self.known[key]
        return self.cur

    def value(self, p):
        kind, val, ctr = self.start(p)
        q = float(np.sum((np.asarray(p[1:], float) - ctr) ** 2))
        if kind == "nan" or (kind == "late" and q < 0.05):
            return np.nan
        if kind == "inf" or (kind == "lateinf" and q < 0.05):
            return np.inf
        if kind == "-inf":
            return -np.inf
        if kind == "zero":
            return max(q - 0.01, 0.0)
        return (val if val is not None else 7.0) + q

    def loss(self, p, data):
        self.nloss += 1
        return self.value(p)

    def grad(self, p, data):
        self.ngrad += 1
        kind, val, ctr = self.start(p)
        if kind in ("nangrad", "redraw"):
            g = np.zeros(self.nd)
            g[self.ngrad % self.nd] = np.nan
            return g
        d = np.asarray(p[1:], float) - ctr
        if kind == "zero" and np.sum(d**2) <= 0.01:
            d = 0 * d
        return np.concatenate([[0.0], 2 * d])


_n = {}


def redraws():
    """draws one start spends when every one of them is invalid"""
    if "r" not in _n:
        out = []
        for k in (1, 2):
            L = Landscape([("nangrad", None)], 10**9)
            np.random.seed(0)
            fu.minimizer_wrapper(L.loss, L.grad, (np.zeros(3), np.ones(3)), None, loss_tol=TOL, max_iter=k)
            out.append(len(L.known))
        _n["r"] = out
    return _n["r"]


ALPHABET = {
    "G": ("good", 0.03), "g": ("good", 0.07), "P": ("poor", 5.0), "p": ("poor", 2.0), "H": ("poor", 4321.0),
    "N": ("nan", None), "I": ("inf", None), "J": ("-inf", None), "X": ("nangrad", None),
    "L": ("late", 3.0), "M": ("lateinf", 3.0), "r": ("redraw", None),
    "Z": ("zero", 0.0), "V": ("good", -2.0),
}


def drive(mon, word, max_iter, tol=TOL, seed=0):
    r1, r2 = redraws()
    plan = [ALPHABET[c] for c in word] + [("poor", 9.0)]
    L = Landscape(plan, r1)
    p0 = (np.array([3.0, -4.0, 40.0]), np.array([2.0, 5.0, 0.5]))
    keep = [a.copy() for a in p0]
    np.random.seed(seed)
    data = object()
    out = fu.minimizer_wrapper(L.loss, L.grad, p0, data, loss_tol=tol, max_iter=max_iter)
    p, loss, ok = out
    mon.ok(all(np.array_equal(a, b) for a, b in zip(p0, keep)), "restarts:inputs-unmodified", word=word)
    starts = [k for k in L.log]
    # expected events: starts in plan order until the tolerance is met or the starts are used up
    want, best = [], []
    for c in word + "?" * max_iter:
        if c == "r":
            continue
        if len(want) == max_iter:
            break
        kind, val = ALPHABET.get(c, ("poor", 9.0))
        want.append(kind)
        if kind in ("good", "poor", "zero"):
            best.append(val)
            if val <= tol:
                break
        elif kind in ("late", "lateinf"):
            want[-1] = kind
    fuzzy = any(k in ("late", "lateinf") for k in want)
    mon.ok([s[0] for s in starts] == want, "restarts:sequence", word=word, got=[s[0] for s in starts], want=want)
    if not fuzzy:
        if best:
            mon.ok(ok == 1, "restarts:success-code", word=word, got=ok)
            mon.close(float(loss), min(best), 1e-6 * max(1, min(best)), "restarts:best-loss", word=word)
        else:
            mon.ok(ok == -1, "restarts:failure-code", word=word, got=ok)
            mon.close(float(loss), FILL, 1e-9, "restarts:fill-loss", word=word)
    else:
        lb = min(best) if best else np.inf
        mon.ok(ok in (1, -1), "restarts:code", got=ok)
        if best:
            mon.ok(ok == 1 and loss <= lb * (1 + 1e-6), "restarts:best-not-lost", word=word, got=loss, ok=ok)
    mon.ok(np.all(np.isfinite(p)) and np.shape(p) == (3,), "restarts:finite-parameters", word=word, got=p)
    mon.ok(np.isfinite(loss), "restarts:finite-loss", word=word, got=loss)
    if ok == 1:
        mon.close(float(loss), L.value(p), 1e-9 * max(1.0, abs(loss)), "restarts:loss-belongs-to-parameters", word=word)
    mon.state("restarts", word[:6], max_iter)
    return L


BASE = "GPpNIX"


@CASES(quick=1, thorough=1, modes=("x64",))
def words(mon, rng):
    """every fault sequence of length up to 3 (quick) or 4 (thorough) over six outcomes"""
    n = 3 if mon.tier == "quick" else 4
    for k in range(1, n + 1):
        for w in itertools.product(BASE, repeat=k):
            drive(mon, "".join(w), k, seed=int(rng.integers(2**31)))
    mon.sample(words=sum(6**k for k in range(1, n + 1)), redraws=redraws())


@CASES(quick=250, thorough=3000, modes=("x64",))
def random_words(mon, rng):
    """longer sequences over the full alphabet, with defaults and other tolerances"""
    mi = int(rng.choice([1, 2, 5, 10]))
    alpha = ("PpHNIJXr", "GgPpHNIJXLMr", "PpHNXZ", "PHNXIZVr")[mon.rep % 4]
    w = "".join(rng.choice(list(alpha), mi + 3))
    tol = float(rng.choice([0.1, 0.05, 2.5, 1e-12, 0.1]))
    if "Z" in w and tol < 1e-3:
        tol = 0.1
    drive(mon, w, mi, tol=tol, seed=int(rng.integers(2**31)))


@CASES(quick=4, thorough=20, modes=("x64",))
def start_points(mon, rng):
    """starts are Gaussian perturbations of the guess with the stated widths, invalid draws skipped"""
    mu, sd = np.array([1.0, -20.0, 300.0]), np.array([0.5, 2.0, 30.0])
    pts = []
    bad = mon.rep % 2

    def g(p, d):
        if bad and p[0] > mu[0]:
            return np.array([np.nan, 0.0, 0.0])
        return np.zeros(3)

    np.random.seed(int(rng.integers(2**31)))
    n = 2000
    for _ in range(n):
        q, isnan = fu.return_random_pinit((mu, sd), None, g)
        mon.ok(not isnan, "start_points:valid-draw-found")
        pts.append(np.array(q))
    Z = (np.array(pts) - mu) / sd
    m = np.zeros(3)
    s = np.ones(3)
    if bad:
        mon.ok(Z[:, 0] <= 0, "start_points:invalid-gradient-skipped")
        m[0], s[0] = -np.sqrt(2 / np.pi), np.sqrt(1 - 2 / np.pi)
    mon.close(Z.mean(0), m, 6.5 / np.sqrt(n), "start_points:mean")
    mon.close(Z.std(0), s, 6.5 / np.sqrt(n), "start_points:width")
    mon.ok(np.abs(np.corrcoef(Z.T)[np.triu_indices(3, 1)]) < 6.5 / np.sqrt(n), "start_points:independent")
    mon.ok(fu.return_random_pinit((mu, sd), None, lambda p, d: np.full(3, np.nan))[1], "start_points:reports-invalid")
    # a driver whose starts all sit at the guess: width zero
    q, _ = fu.return_random_pinit((mu, 0 * sd), None, lambda p, d: np.zeros(3))
    mon.close(q, mu, 0, "start_points:zero-width")
    mon.state("start_points", "invalid-half" if bad else "all-valid")


def adam_reference(g, p0, n, lr):
    """float64 Adam trajectory"""
    m = v = np.zeros_like(p0)
    p, out = p0.astype(float), []
    for i in range(n):
        out.append(p.copy())
        gr = g(p)
        m, v = 0.9 * m + 0.1 * gr, 0.999 * v + 0.001 * gr**2
        p = p - lr * (m / (1 - 0.9 ** (i + 1))) / (np.sqrt(v / (1 - 0.999 ** (i + 1))) + 1e-8)
    return np.array(out)


def bowl(kind, thr):
    """quadratic bowl whose loss or gradient turns invalid once parameter 0 exceeds thr"""

    def f(p, data):
        q = jnp.sum(data[1] * (p - data[0]) ** 2)
        over = p[0] > thr
        if kind == "nan":
            return jnp.where(over, jnp.nan, q)
        if kind == "inf":
            return jnp.where(over, jnp.inf, q)
        if kind == "grad":
            return q + jnp.sqrt(jnp.where(over, 0.0, 1.0)) * 0 + jnp.sqrt(jnp.maximum(jnp.where(over, -1.0, 1.0) * (p[1] * 0 + 1), 0.0)) * 0.0 + 0 * p[0]
        return q

    def fgrad(p, data):  # finite value, NaN gradient past the threshold
        q = jnp.sum(data[1] * (p - data[0]) ** 2)
        x = jnp.where(p[0] > thr, 0.0 * p[0], 1.0 + p[0] ** 2)
        return q + 1e-3 * jnp.sqrt(x)

    return fgrad if kind == "grad" else f


def judge_adam(mon, out, f, data, start, n, oracle, /, valid=None, **kw):
    best, loss, la, pa, term = out
    la, pa, best = np.asarray(la, np.float64), np.asarray(pa, np.float64), np.asarray(best, np.float64)
    mon.ok(len(la) == len(pa) and len(la) <= n, oracle + ":trajectory-length", got=len(la), n=n, **kw)
    mon.ok(term == (1 if len(la) == n else 0), oracle + ":termination-flag", got=term, steps=len(la), n=n, **kw)
    if valid is not None:
        mon.ok(len(la) == valid, oracle + ":stops-at-the-fault", got=len(la), want=valid, **kw)
    mon.ok(np.isfinite(la) & np.isfinite(pa).all(axis=1), oracle + ":trajectory-valid", **kw)
    mon.ok(np.isfinite(best), oracle + ":best-finite", **kw)
    if not len(la):
        mon.close(best, start, 1e-6 * (1 + np.abs(start)), oracle + ":failed-at-once-returns-start", **kw)
        mon.close(float(loss), FILL, 1e-9, oracle + ":failed-at-once-fill-loss", **kw)
        return pa
    if start is not None:
        mon.close(pa[0], start, 3e-7 * (1 + np.abs(start)), oracle + ":starts-from-given-point", **kw)
    k = int(np.argmin(la))
    mon.close(float(loss), la[k], 0, oracle + ":best-loss-is-minimum-of-trajectory", **kw)
    ties = np.flatnonzero(la == la[k])
    mon.ok(any(np.array_equal(best, pa[j]) for j in ties), oracle + ":best-point-of-trajectory", got=best, want=pa[k], **kw)
    want = np.array([float(f(jnp.asarray(p), data)) for p in pa])
    mon.close(la, want, 1e-4 * (1e-3 + np.abs(want)), oracle + ":recorded-loss-belongs-to-point", **kw)
    return pa


@CASES(quick=8, thorough=60)
def adam(mon, rng):
    """fault at every step of the descent, and in the warm-up"""
    nd = int(rng.choice([1, 2, 5]))
    c = np.concatenate([[50.0], rng.normal(0, 3, nd - 1)])
    w = np.concatenate([[1.0], rng.uniform(0.1, 3, nd - 1)])
    p0 = rng.normal(0, 1, nd)
    lr = float(rng.choice([0.01, 0.1, 0.03]))
    n = int(rng.choice([1, 2, 7, 12]))
    data = (jnp.asarray(c), jnp.asarray(w))
    g = lambda p: 2 * w * (p - c)  # noqa
    ref = adam_reference(g, p0, n, lr)
    f = bowl("none", np.inf)
    p_in = p0.copy()
    pa = judge_adam(mon, fu.jax_adam_wrapper_v2(f, p_in, data, n, step_size=lr), f, data, p0, n, "adam", valid=n)
    mon.close(pa, ref, 2e-5 * (1 + np.abs(ref)) + 1e-3 * lr, "adam:trajectory", nd=nd, lr=lr)
    mon.same(p_in, p0, "adam:input-unmodified")
    if lr == 0.01:
        pd = judge_adam(mon, fu.jax_adam_wrapper_v2(f, p0, data, n), f, data, p0, n, "adam-default", valid=n)
        mon.close(pd, ref, 2e-5 * (1 + np.abs(ref)) + 1e-3 * lr, "adam:default-step-size")
    for kind in ("nan", "inf", "grad"):
        for k in range(0, n + 1) if n <= 7 else (0, 1, n // 2, n - 1, n):
            # valid for the first k steps
            thr = 0.5 * (ref[k - 1, 0] + ref[k, 0]) if 0 < k < n else (ref[0, 0] - 1 if k == 0 else np.inf)
            fk = bowl(kind, thr)
            out = fu.jax_adam_wrapper_v2(fk, p0, data, n, step_size=lr)
            judge_adam(mon, out, fk, data, p0, n, "adam-fault", valid=k, kind=kind, k=k)
            mon.state("adam", kind, "k=%d/%d" % (k, n))
    # a long descent that overshoots its best point and only then runs into the fault, or comes to its end
    c1 = np.concatenate([[p0[0] + rng.uniform(0.5, 1.5)], c[1:]])
    d1 = (jnp.asarray(c1), jnp.asarray(w))
    for lr1 in (0.3, 0.6):
        n1 = int(rng.integers(25, 45))
        r1 = adam_reference(lambda p: 2 * w * (p - c1), p0, n1, lr1)
        l1 = np.sum(w * (r1 - c1) ** 2, axis=1)
        top = int(np.argmax(r1[:, 0]))
        for kind in ("nan", "inf", "grad", "none"):
            k = int(rng.integers(1, max(2, top))) if kind != "none" else n1
            thr = 0.5 * (r1[k - 1, 0] + r1[k, 0]) if kind != "none" else np.inf
            fk = bowl(kind, thr)
            out = judge_adam(mon, fu.jax_adam_wrapper_v2(fk, p0, d1, n1, step_size=lr1), fk, d1, p0, n1, "adam-overshoot", kind=kind, k=k)
            mon.state("adam-overshoot", kind, "best-before-last" if np.argmin(l1[:k]) < k - 1 else "best-is-last")
    # warm-up: the main burn starts from the best point of the warm-up, which may itself fail
    nw, wn = int(rng.choice([1, 2])), int(rng.choice([3, 6]))
    ws = (None, 0.05)[int(rng.integers(2))]
    q = p0
    for _ in range(nw):
        tr = adam_reference(g, q, wn, 5 * lr if ws is None else ws)
        la = np.array([np.sum(w * (p - c) ** 2) for p in tr])
        q = tr[int(np.argmin(la))]
    out = fu.jax_adam_wrapper_v2(f, p0, data, n, n_warmup=nw, step_size=lr, warmup_n_step=wn, warmup_step_size=ws)
    pw = judge_adam(mon, out, f, data, None, n, "adam-warmup", valid=n)
    mon.close(pw[0], q, 1e-4 * (1 + np.abs(q)) + 3e-3 * lr, "adam-warmup:starts-from-best-of-warmup", nw=nw, wn=wn)
    tr = adam_reference(g, p0, wn, 5 * lr if ws is None else ws)
    for kind in ("nan", "grad"):
        thr = 0.5 * (tr[1, 0] + tr[2, 0])
        fk = bowl(kind, thr)
        out = fu.jax_adam_wrapper_v2(fk, p0, data, n, n_warmup=nw, step_size=lr, warmup_n_step=wn, warmup_step_size=ws)
        judge_adam(mon, out, fk, data, None, n, "adam-warmup-fault", kind=kind)
        mon.ok(np.asarray(out[3])[0, 0] <= thr, "adam-warmup-fault:starts-from-a-valid-point", kind=kind)
        mon.state("adam-warmup", kind, nw, wn)
    mon.sample(nd=nd, lr=lr, n=n, trajectory=pa[:2])


@CASES(quick=6, thorough=40)
def two_stage(mon, rng):
    """L-BFGS first, Adam when it fails, -1 when that fails too"""
    nd = int(rng.choice([2, 4]))
    c, w = rng.normal(0, 3, nd), rng.uniform(0.3, 3, nd)
    p0 = rng.normal(0, 1, nd)
    p0[0] = c[0] - rng.uniform(1, 3)
    data = (jnp.asarray(c), jnp.asarray(w))
    f = bowl("none", np.inf)
    F = lambda p, d: float(np.sum(w * (np.asarray(p, np.float64) - c) ** 2))  # noqa

    def dual(fj):  # float64 for scipy, traced for Adam
        return lambda p, d: F(p, d) if isinstance(p, np.ndarray) else fj(p, d)

    good = lambda p, d: 2 * w * (np.asarray(p, float) - c)  # noqa
    wrong = lambda p, d: -1e3 * good(p, d)  # steeply uphill: the line search must give up # noqa
    for drv, extra in ((fu.minimizer, (30,)), (pu.minimizer, ())):
        p, loss, ok = drv(F, good, p0.copy(), data, *extra)
        mon.ok(ok == 1, "two_stage:lbfgs-success", driver=drv.__module__)
        mon.close(np.asarray(p), c, 1e-3 if mon.x64 else 2e-2, "two_stage:lbfgs-minimum")
        mon.close(float(loss), F(p, data), 1e-6 + 1e-5 * abs(loss), "two_stage:loss-belongs-to-parameters")
    p, loss, ok = fu.minimizer(dual(f), wrong, p0.copy(), data, 25, step_size=0.05)
    mon.ok(ok == 0, "two_stage:fallback-code", got=ok)
    mon.close(float(loss), F(p, data), 1e-4 * (1e-3 + abs(loss)), "two_stage:fallback-loss")
    mon.ok(loss <= F(p0, data) * (1 + 1e-5), "two_stage:fallback-not-worse-than-start", got=loss)
    mon.state("two_stage", "fallback", nd)
    # the fallback then runs into an invalid region
    for kind in ("nan", "inf", "grad"):
        fk = bowl(kind, p0[0] + 0.3)
        p, loss, ok = fu.minimizer(dual(fk), wrong, p0.copy(), data, 60, step_size=0.02)
        mon.ok(ok == -1, "two_stage:failure-code", kind=kind, got=ok)
        mon.ok(np.isfinite(loss) and np.isfinite(np.asarray(p)).all(), "two_stage:finite-result", kind=kind)
        mon.close(float(loss), float(fk(jnp.asarray(p), data)), 1e-4 * (1e-3 + abs(loss)), "two_stage:failed-loss-belongs-to-parameters", kind=kind)
        mon.state("two_stage", kind, nd)
