"""C19: text line -> collated table -> HDF5 -> loaders, galaxy by galaxy."""

import os
import shutil
import tempfile

import h5py
import numpy as np

from diffstar import DEFAULT_DIFFSTAR_PARAMS, DiffstarParams
from diffstar.data_loaders import load_flat_hdf5
from diffstar.data_loaders.load_smah_data import load_fit_sfh
from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh

from .. import core, gen
from .. import refmodel as R

CASES = core.Registry()
RULE = (
    "Each execution writes a mixture of fitted and unfitted galaxies the way the fitting scripts do (one text file per rank, collation, "
    "HDF5) and reads every number back; classes are (number of galaxies, number of files, identifier kind, parameter kind, code path)."
)
ASSUMPTIONS = ["collated tables are read from the text files as strings, as every fitting script does, or as float arrays when identifiers fit"]
NAMES = ["halo_id", *R.PNAMES, "loss", "success"]


def ids(rng, n, kind):
    if kind == "range":
        return np.arange(n) + int(rng.integers(0, 100))
    if kind == "big":
        return rng.integers(2**60, 2**63 - 1, n)
    if kind == "negative":
        return -rng.integers(1, 2**40, n)
    if kind == "edge":
        e = [2**63 - 1, 2**53 + 1, 2**31, 2**53 - 1, 0, -1, 10**17 + 1, 123456789012345678]
        return np.array([e[i % len(e)] for i in range(n)], np.int64)
    return rng.integers(0, 2**53, n)


def pars(rng, n, kind):
    if kind == "galaxy":
        return np.array(gen.galaxy(rng, n)[0]).T
    if kind == "tiny":
        return 10 ** rng.uniform(-30, -5, (n, 8)) * rng.choice([-1.0, 1.0], (n, 8))
    if kind == "huge":
        return 10 ** rng.uniform(5, 30, (n, 8)) * rng.choice([-1.0, 1.0], (n, 8))
    if kind == "round":
        return np.round(rng.normal(0, 10, (n, 8)))
    out = rng.normal(0, 1, (n, 8)) * 10 ** rng.uniform(-8, 8, (n, 8))
    out[rng.random((n, 8)) < 0.1] = 0.0
    return out


def table(rng, n):
    ik = str(rng.choice(["range", "big", "negative", "edge", "mid"]))
    pk = str(rng.choice(["galaxy", "tiny", "huge", "round", "mixed"]))
    I, P = ids(rng, n, ik), pars(rng, n, pk)
    L = np.where(rng.random(n) < 0.1, 999.99, 10 ** rng.uniform(-12, 6, n))
    S = np.where(rng.random(n) < 0.15, -1, rng.integers(0, 2, n))
    F = rng.random(n) < (0.0, 0.3, 0.7, 1.0)[int(rng.integers(4))]
    return I, P, L, S, F, ik, pk


def as_params(rng, v, dtype):
    import jax.numpy as jnp

    k = int(rng.integers(4))
    if k == 0:
        return DiffstarParams(*[float(x) for x in v])
    if k == 1:
        return DEFAULT_DIFFSTAR_PARAMS._make([jnp.asarray(x, dtype) for x in v])
    if k == 2:
        return np.array(v)
    return DiffstarParams(*[np.float32(x) for x in v])


def precise(x):
    """5 digits after the point, parameters stored in single precision"""
    return 5.1e-6 * np.abs(x) + 1.3e-7 * np.abs(x) + 1e-45


def check_rows(mon, got, I, P, L, S, F, oracle, /, **kw):
    """got: dict of columns"""
    mon.same(np.asarray(got["halo_id"]), I.astype(np.int64), oracle + ":identifier", **kw)
    mon.ok(np.asarray(got["halo_id"]).dtype.kind == "i" and np.asarray(got["success"]).dtype.kind == "i", oracle + ":integer-columns")
    mon.same(np.asarray(got["success"]), np.where(F, -1, S), oracle + ":success", **kw)
    want = np.where(F, -1.0, L)
    mon.close(got["loss"], want, np.where(F, 0, precise(want)), oracle + ":loss", **kw)
    for j, k in enumerate(R.PNAMES):
        w = np.where(F, -99.0, P[:, j])
        mon.close(got[k], w, np.where(F, 0, precise(w)), oracle + ":parameters", column=k, **kw)
    # an unfitted galaxy is never mistaken for a fitted one
    nofit = (np.asarray(got["loss"]) == -1) & (np.asarray(got["success"]) == -1)
    mon.same(nofit, F, oracle + ":unfitted-distinguishable", **kw)


@CASES(quick=60, thorough=2000, modes=("x64",))
def roundtrip(mon, rng):
    n = int((1, 2, 3, 17, 60, 200)[mon.rep % 6])
    I, P, L, S, F, ik, pk = table(rng, n)
    nf = int(min(n, rng.integers(1, 6)))
    hdr, cols = dfh.get_header()
    mon.ok(hdr.startswith("#") and hdr.endswith("\n") and hdr.count("\n") == 1, "header:one-comment-line", got=hdr)
    mon.ok(hdr[1:].split() == list(cols) == NAMES, "header:names", got=cols)
    d = tempfile.mkdtemp()
    try:
        lines = []
        for i in range(n):
            hid = (int(I[i]), I[i], np.int64(I[i]))[int(rng.integers(3))]
            if F[i]:
                s = dfh.get_outline_nofit(hid)
            else:
                v = as_params(rng, P[i], np.float64)
                s = dfh.get_outline(hid, v, (float(L[i]), np.float64(L[i]))[i % 2], (int(S[i]), np.int64(S[i]))[i % 2])
            tok = s.split()
            mon.ok(s.endswith("\n") and s.count("\n") == 1 and len(tok) == len(NAMES), "line:fields", got=s)
            mon.ok(int(tok[0]) == int(I[i]), "line:identifier", got=tok[0], want=int(I[i]))
            lines.append(s)
        parts = np.array_split(np.arange(n), nf)
        coll = []
        for r, ix in enumerate(parts):
            fn = os.path.join(d, "rank_%d.dat" % r)
            with open(fn, "w") as f:
                f.write(hdr)
                f.writelines(lines[i] for i in ix)
            coll.append(np.genfromtxt(fn, dtype="str", ndmin=2))
        data = np.concatenate(coll)
        keep = data.copy()
        out = os.path.join(d, "fits.hdf5")
        if rng.random() < 0.5:  # a stale file of another run is replaced, not merged
            with h5py.File(out, "w") as h:
                h["halo_id"] = np.arange(5)
                h["stale"] = np.zeros(3)
        dfh.write_collated_data(out, data, cols)
        mon.same(data, keep, "write:input-unmodified")
        with h5py.File(out, "r") as h:
            mon.ok(sorted(h.keys()) == sorted(NAMES), "write:columns", got=list(h.keys()))
            direct = {k: h[k][:] for k in h.keys()}
        kw = dict(n=n, ids=ik, pars=pk, files=nf)
        check_rows(mon, direct, I, P, L, S, F, "direct", **kw)
        check_rows(mon, load_flat_hdf5(out), I, P, L, S, F, "loader", **kw)
        a, b = sorted(rng.integers(0, n + 1, 2))
        part = load_flat_hdf5(out, istart=int(a), iend=int(b))
        check_rows(mon, part, I[a:b], P[a:b], L[a:b], S[a:b], F[a:b], "slice", **kw)
        ms, q = load_fit_sfh("fits.hdf5", data_drn=d)
        mon.ok(ms.shape == (n, 4) and q.shape == (n, 4), "params:shape", ms=ms.shape, q=q.shape)
        w = np.where(F[:, None], -99.0, P)
        mon.close(np.concatenate([ms, q], 1), w, precise(w), "params:values-in-order", **kw)
        # float tables hold identifiers below 2^53
        if np.abs(I).max() < 2**53:
            out2 = os.path.join(d, "float.hdf5")
            dfh.write_collated_data(out2, data.astype(float), cols)
            check_rows(mon, load_flat_hdf5(out2), I, P, L, S, F, "float-table", **kw)
        # a header that does not match is rejected and nothing else is damaged
        before = open(out, "rb").read()
        for bad in (cols[:-1], cols + ["extra"], cols[:1]):
            for tgt in (os.path.join(d, "bad.hdf5"), out):
                try:
                    dfh.write_collated_data(tgt, data, bad)
                    mon.fail("mismatch:rejected", ncols=len(bad))
                except (AssertionError, ValueError, IndexError):
                    mon.ok(True, "mismatch:rejected")
        mon.ok(open(out, "rb").read() == before, "mismatch:existing-file-kept")
        mon.ok(sorted(x for x in os.listdir(d) if x.endswith("hdf5")) in (["fits.hdf5"], ["fits.hdf5", "float.hdf5"]), "files:only-the-named-output", got=os.listdir(d))
        mon.state(ik, pk, "n=%d" % n, "files=%d" % nf, "unfitted=%s" % ("none" if not F.any() else "all" if F.all() else "some"))
        mon.sample(ids=[int(x) for x in I[:3]], line=lines[0], loss=direct["loss"][:3])
    finally:
        shutil.rmtree(d)


@CASES(quick=2, thorough=20)
def real_fits(mon, rng):
    """fits as they come out of the fitter, next to galaxies without one"""
    d = tempfile.mkdtemp()
    try:
        t = np.linspace(0.3, 13.8, 30)
        hdr, cols = dfh.get_header()
        rows, keep = [], []
        for i in range(4):
            p, _ = gen.galaxy(rng, 1, ("uniform", "default"))
            m = (float(rng.uniform(11, 14)), 0.05, 2.6, 0.13, 14.0)
            s = R.sfr([float(x[0]) for x in p], m, t, np.log10(13.8), 0.156)
            if i == 2:
                rows.append(dfh.get_outline_nofit(i))
                keep.append(None)
                continue
            from ..lib import mah

            res = dfh.diffstar_fitter(t, s, mah(m), lgt0=np.log10(13.8))
            keep.append(res)
            rows.append(dfh.get_outline(i, *res))
        fn = os.path.join(d, "a.dat")
        open(fn, "w").write(hdr + "".join(rows))
        out = os.path.join(d, "b.hdf5")
        dfh.write_collated_data(out, np.genfromtxt(fn, dtype="str", ndmin=2), cols)
        got = load_flat_hdf5(out)
        F = np.array([k is None for k in keep])
        P = np.array([[-99.0] * 8 if k is None else [float(x) for x in k[0]] for k in keep])
        L = np.array([-1.0 if k is None else k[1] for k in keep])
        S = np.array([-1 if k is None else k[2] for k in keep])
        check_rows(mon, got, np.arange(4), P, L, S, F, "real")
        mon.state("real", tuple(S))
    finally:
        shutil.rmtree(d)
