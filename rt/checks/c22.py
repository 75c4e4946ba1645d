"""C22: parameter merging, selection and correlation algebra are exact."""

from collections import namedtuple

import jax
import jax.numpy as jnp
import numpy as np

import diffstar
from diffstar import diffstarpop as dp
from diffstar.diffstarpop import param_utils as pu
from diffstar.diffstarpop import utils as pou

from .. import core, gen

CASES = core.Registry()
RULE = (
    "Merging: every execution draws subsets of fields (sizes 0..all, any order, several container kinds) with marked values and compares "
    "every field of the result. Selection: every galaxy and every field compared exactly. Correlation: random positive definite matrices "
    "built from a spectrum or from factors, sizes 1..12, compared with float64 NumPy algebra; classes are (operation, size, conditioning)."
)
ASSUMPTIONS = [
    "covariances stay inside the range of the precision in use (variances 1e-12..1e12 in single precision)",
]

UF = dp.DiffstarPopUParams._fields
BASES = {
    "pop": dp.DEFAULT_DIFFSTARPOP_PARAMS,
    "upop": dp.DEFAULT_DIFFSTARPOP_U_PARAMS,
    "galaxy": diffstar.DEFAULT_DIFFSTAR_PARAMS,
    "ugalaxy": diffstar.DEFAULT_DIFFSTAR_U_PARAMS,
}


def subset(rng, fields, k=None):
    n = len(fields)
    k = int(rng.choice([0, 1, 2, n // 2, n - 1, n])) if k is None else k
    return [fields[i] for i in rng.permutation(n)[:k]]


def value(rng, base, kind):
    if kind == "scalar":
        return float(np.float32(base + rng.normal(0, 3)))
    if kind == "int":
        return int(rng.integers(-5, 6))
    if kind == "array":
        return gen.f32(rng.normal(0, 3, 4))
    if kind == "jax":
        return jnp.asarray(rng.normal(0, 3, 3).astype(np.float32))
    if kind == "zero":
        return 0.0
    if kind == "special":
        return (np.nan, np.inf, -np.inf, 1e30, -1e-30)[int(rng.integers(5))]
    return base  # equal to the default


KINDS = ("scalar", "int", "array", "jax", "zero", "special", "default")


def expect(mon, got, base, names, vals, oracle, /, **kw):
    if not mon.ok(tuple(got._fields) == tuple(base._fields), oracle + ":fields", got=got._fields, **kw):
        return
    d = dict(zip(names, vals))
    f = np.float64 if mon.x64 else np.float32
    for k in base._fields:
        want = np.asarray(d.get(k, getattr(base, k)))
        if want.dtype.kind == "f":
            want = want.astype(f)
        g = np.asarray(getattr(got, k))
        o = oracle + (":named" if k in d else ":unnamed")
        if g.dtype.kind == "f":
            g = g.astype(f)
        mon.same(g, want, o, field=k, **kw)


@CASES(quick=12, thorough=100)
def merge(mon, rng):
    """named fields replaced, all others kept, for any parameter set"""
    for b, base in BASES.items():
        names = subset(rng, base._fields, k=1 if mon.rep == 0 else None)
        kinds = [KINDS[int(rng.integers(len(KINDS)))] for _ in names]
        vals = [value(rng, float(getattr(base, n)), k) for n, k in zip(names, kinds)]
        V = namedtuple("Varied", names)(*vals)
        keep = [np.array(v) for v in vals]
        got = pu.get_all_params_from_varied(V, base)
        mon.ok(type(got) is type(base), "merge:type", got=type(got).__name__)
        expect(mon, got, base, names, vals, "merge", base=b, names=names)
        mon.ok([np.array_equal(a, np.asarray(v), equal_nan=True) for a, v in zip(keep, vals)], "merge:inputs-unmodified")
        # defaults other than the published ones
        other = base._make([float(np.float32(rng.normal(0, 5))) for _ in base._fields])
        expect(mon, pu.get_all_params_from_varied(V, other), other, names, vals, "merge-other", base=b, names=names)
        # merging in two steps equals merging at once; repeating changes nothing
        expect(mon, pu.get_all_params_from_varied(V, got), base, names, vals, "merge-twice", base=b)
        if len(names) > 1:
            h = len(names) // 2
            V1, V2 = namedtuple("A", names[:h])(*vals[:h]), namedtuple("B", names[h:])(*vals[h:])
            expect(mon, pu.get_all_params_from_varied(V2, pu.get_all_params_from_varied(V1, base)), base, names, vals, "merge-steps", base=b)
        mon.state("merge", b, len(names), *sorted(set(kinds)))


@CASES(quick=12, thorough=100)
def merge_pop(mon, rng):
    """population parameters from any subset of the unbounded ones"""
    base = dp.DEFAULT_DIFFSTARPOP_U_PARAMS
    before = [float(x) for x in base]
    names = subset(rng, UF, k=(1, len(UF), 0)[mon.rep] if mon.rep < 3 else None)
    kinds = [("scalar", "zero", "default", "int")[int(rng.integers(4))] for _ in names]
    vals = [value(rng, float(getattr(base, n)), k) for n, k in zip(names, kinds)]
    V = namedtuple("Varied", names)(*vals)
    got = pu.get_all_diffstarpop_u_params(V)
    mon.ok(isinstance(got, dp.DiffstarPopUParams), "pop:type", got=type(got).__name__)
    expect(mon, got, base, names, vals, "pop", names=names)
    rev = names[::-1]
    got2 = pu.get_all_diffstarpop_u_params(namedtuple("Reversed", rev)(*vals[::-1]))
    for k in UF:
        mon.same(getattr(got2, k), getattr(got, k), "pop:order-irrelevant", field=k)
    mon.ok([float(x) for x in dp.DEFAULT_DIFFSTARPOP_U_PARAMS] == before, "pop:defaults-unmodified")
    # what the merged set means: bounded values of the named parameters move, the others stay
    if names and all(k != "default" for k in kinds):
        pb = dp.get_bounded_diffstarpop_params(got)
        p0 = dp.get_bounded_diffstarpop_params(base)
        for u, a, b in zip(UF, pb, p0):
            if u not in names:
                mon.same(a, b, "pop:others-bounded-unchanged", field=u)
    # derivative: each named parameter feeds its own field with weight one
    if names and mon.rep % 3 == 0:
        def f(v):
            return jnp.stack([jnp.asarray(x, float) for x in pu.get_all_diffstarpop_u_params(v)])

        J = jax.jacobian(f)(namedtuple("Varied", names)(*[jnp.asarray(float(v)) for v in vals]))
        J = np.stack([np.asarray(x) for x in J], 1)
        want = np.array([[float(u == n) for n in names] for u in UF])
        mon.same(J, want, "pop:derivative")
    mon.state("pop", len(names), *sorted(set(kinds)))


@CASES(quick=12, thorough=120)
def select(mon, rng):
    """per galaxy and per field"""
    n = int(rng.choice([1, 2, 7, 64, 1000]))
    D = diffstar.DiffstarParams
    F = D._fields
    p1 = [rng.normal(0, 5, n) for _ in F]
    p0 = [rng.normal(0, 5, n) for _ in F]
    for q in (p1, p0):  # values that arithmetic selection would not carry through
        for i in range(len(F)):
            s = rng.random(n)
            q[i] = np.where(s < 0.05, np.inf, np.where(s < 0.1, np.nan, np.where(s < 0.15, 1e30, np.where(s < 0.2, 1e-30, q[i]))))
    if not mon.x64:
        p1, p0 = [x.astype(np.float32) for x in p1], [x.astype(np.float32) for x in p0]
    kind = ("random", "true", "false", "alternate", "first", "last")[int(rng.integers(6))]
    flag = {
        "random": rng.random(n) < rng.random(),
        "true": np.ones(n, bool),
        "false": np.zeros(n, bool),
        "alternate": np.arange(n) % 2 == 0,
        "first": np.arange(n) == 0,
        "last": np.arange(n) == n - 1,
    }[kind]
    forms = {"bool": flag, "jax": jnp.asarray(flag), "int": flag.astype(int), "float": flag.astype(float)}
    form = list(forms)[int(rng.integers(4))]
    cont = (D, namedtuple("Shuffled", [F[i] for i in rng.permutation(len(F))]))[int(rng.integers(2))]
    d1, d0 = dict(zip(F, p1)), dict(zip(F, p0))
    a1, a0 = cont(**d1), D(*p0)
    got = pu.mc_select_diffstar_params(a1, a0, forms[form])
    mon.ok(isinstance(got, D), "select:type", got=type(got).__name__)
    for k in F:
        mon.same(np.asarray(getattr(got, k)), np.where(flag, d1[k], d0[k]), "select:value", field=k, kind=kind, form=form)
    swap = pu.mc_select_diffstar_params(a0, a1, jnp.asarray(~flag))
    for k in F:
        mon.same(np.asarray(getattr(swap, k)), np.asarray(getattr(got, k)), "select:swap", field=k)
    # scalar parameter sets and a single flag; scalars against a vector of flags
    s1, s0 = D(*[float(np.float32(rng.normal())) for _ in F]), D(*[float(np.float32(rng.normal())) for _ in F])
    for fl in (True, False, jnp.asarray(True), np.bool_(False)):
        g = pu.mc_select_diffstar_params(s1, s0, fl)
        for k in F:
            mon.same(np.float32(getattr(g, k)), np.float32(getattr(s1 if bool(fl) else s0, k)), "select:scalar", field=k)
    g = pu.mc_select_diffstar_params(s1, s0, flag)
    for k in F:
        mon.same(np.asarray(getattr(g, k)).astype(np.float32), np.where(flag, getattr(s1, k), getattr(s0, k)).astype(np.float32), "select:broadcast", field=k)
    mon.state("select", n, kind, form, cont.__name__)


def covariance(rng, n, kind, x64):
    """a valid covariance, with its correlation and its deviations in float64"""
    if kind == "spectrum":
        q, _ = np.linalg.qr(rng.normal(size=(n, n)))
        c = (q * 10 ** rng.uniform(-2, 1, n)) @ q.T
    elif kind == "factor":
        k = max(1, n // 3)
        a = rng.normal(size=(n, k))
        c = a @ a.T + 0.05 * np.eye(n)
    elif kind == "singular":
        a = rng.normal(size=(n, max(1, n - 1)))
        c = a @ a.T + 1e-6 * np.eye(n)
    elif kind == "diagonal":
        c = np.diag(10 ** rng.uniform(-2, 2, n))
    elif kind == "block":
        c = np.zeros((n, n))
        i = 0
        while i < n:
            k = min(int(rng.integers(1, 4)), n - i)
            a = rng.normal(size=(k, k))
            c[i : i + k, i : i + k] = a @ a.T + 0.1 * np.eye(k)
            i += k
    elif kind == "equi":
        r = rng.uniform(-1 / max(n - 1, 1) * 0.95, 0.999)
        c = np.full((n, n), r)
        np.fill_diagonal(c, 1.0)
    else:  # perfectly correlated pairs
        a = rng.normal(size=(n, 1))
        c = a @ a.T + 1e-9 * np.eye(n)
    c = (c + c.T) / 2
    if rng.random() < 0.6:
        lim = 12 if not x64 else 60
        s = 10 ** rng.uniform(-lim / 2, lim / 2, n)
        c = c * np.outer(s, s)
    if not x64:
        c = c.astype(np.float32).astype(np.float64)
    return c


@CASES(quick=30, thorough=300)
def correlation(mon, rng):
    n = int(rng.integers(1, 13))
    kind = ("spectrum", "factor", "singular", "diagonal", "block", "equi", "pairs")[mon.rep % 7]
    C = covariance(rng, n, kind, mon.x64)
    sd = np.sqrt(np.diag(C))
    want = C / np.outer(sd, sd)
    u = 2.3e-16 if mon.x64 else 1.2e-7
    kw = dict(n=n, kind=kind)
    form = ("numpy", "jax", "fortran")[int(rng.integers(3))]
    arg = {"numpy": C, "jax": jnp.asarray(C), "fortran": np.asfortranarray(C)}[form]
    r = np.asarray(pou.correlation_from_covariance(arg), float)
    mon.ok(np.isfinite(r), "corr:finite", **kw)
    mon.close(r, want, 8 * u * np.abs(want), "corr:value", **kw)
    mon.close(np.diag(r), np.ones(n), 8 * u, "corr:unit-diagonal", **kw)
    mon.close(r, r.T, 8 * u * np.abs(want), "corr:symmetric", **kw)
    mon.ok(np.abs(r) <= 1 + 8 * u, "corr:range", **kw)
    mon.same((r == 0)[C == 0], np.ones(int((C == 0).sum()), bool), "corr:zeros-kept", **kw)
    # and back
    back = np.asarray(pou.covariance_from_correlation(r, sd), float)
    tol = 40 * n * u * np.abs(C)
    mon.close(back, C, tol, "roundtrip:cov", **kw)
    mon.same((back == 0)[C == 0], np.ones(int((C == 0).sum()), bool), "roundtrip:zeros-kept", **kw)
    # other deviations on the same correlation
    ev = 10 ** rng.uniform(-3, 3, n)
    if not mon.x64:
        ev = ev.astype(np.float32).astype(float)
    c2 = np.asarray(pou.covariance_from_correlation(r, ev), float)
    w2 = r * np.outer(ev, ev)
    mon.close(c2, w2, 40 * n * u * np.abs(w2), "cov:value", **kw)
    mon.close(np.diag(c2), ev**2, 40 * n * u * ev**2, "cov:variances", **kw)
    r2 = np.asarray(pou.correlation_from_covariance(c2), float)
    mon.close(r2, r, 80 * n * u * np.abs(r), "roundtrip:corr", **kw)
    # relabelling the variables relabels the answer; rescaling them changes nothing
    pm = rng.permutation(n)
    rp = np.asarray(pou.correlation_from_covariance(C[np.ix_(pm, pm)]), float)
    mon.close(rp, r[np.ix_(pm, pm)], 8 * u * np.abs(rp), "corr:relabel", **kw)
    s = 2.0 ** rng.integers(-3, 4, n)
    rs = np.asarray(pou.correlation_from_covariance(C * np.outer(s, s)), float)
    mon.close(rs, r, 8 * u * np.abs(r), "corr:rescale", **kw)
    mon.state("corr", n, kind, form)
    mon.sample(n=n, kind=kind, cond=float(np.linalg.cond(want)))
