"""C20: catalogue loaders: rows, columns and derived quantities."""

import hashlib
import os
import runpy
import shutil
import sys
import tempfile

import h5py
import numpy as np

from diffstar.data_loaders import extract_galacticus_sfh_data as eg
from diffstar.data_loaders import load_flat_hdf5, load_precomputed_diffmah_fits
from diffstar.data_loaders import load_galacticus_sfh as lg
from diffstar.data_loaders import load_smah_data as ls
from diffstar.diffstarpop.sumstats import smdpl_smhm_targets as targets

from .. import core, gen
from .. import refmodel as R
from ..lib import eps

CASES = core.Registry()
RULE = (
    "Each execution writes a synthetic catalogue of known content, loads it through the real loader for several row ranges and compares "
    "every number with what was written; classes are (loader, rows, range shape, failed-fit pattern, key selection)."
)
ASSUMPTIONS = [
    "row ranges satisfy 0 <= istart <= iend; iend may exceed the number of rows where the loader slices",
    "the UniverseMachine binary reader is not installed, so its two loaders read from a stand-in that returns the catalogue",
]
MCOLS = ("logm0", "logtc", "early_index", "late_index", "t_peak")


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def digest(d):
    return {f: hashlib.sha1(open(os.path.join(d, f), "rb").read()).hexdigest() for f in sorted(os.listdir(d))}


def ranges(rng, n, over=True):
    a, b = sorted(rng.integers(0, n + 1, 2))
    out = [(0, None), (0, n), (int(a), None), (int(a), int(b)), (0, int(b)), (int(a), int(a)), (n - 1, n), (0, 0)]
    if over:
        out.append((int(a), n + 7))
    return out


def shape(a, b, n):
    if b is None:
        return "tail" if a else "all"
    return "empty" if a == b else "over" if b > n else "block" if a else "head"


def blocks(rng, n):
    c = np.sort(rng.integers(0, n + 1, int(rng.integers(1, 6))))
    e = [0, *c.tolist(), n]
    return list(zip(e[:-1], e[1:]))


@CASES(quick=30, thorough=600, modes=("x64",))
def flat(mon, rng):
    n = int((1, 2, 5, 40, 300)[mon.rep % 5])
    cols = {}
    for i in range(int(rng.integers(1, 9))):
        k = "c%d_%s" % (i, rng.choice(["a", "Z", "loss", "halo_id"]))
        sh = (n,) if rng.random() < 0.6 else (n, int(rng.integers(1, 5)))
        dt = str(rng.choice(["f4", "f8", "i4", "i8", "?", "S5"]))
        x = rng.integers(-(2**62), 2**62, sh) if dt == "i8" else rng.normal(0, 1e3, sh)
        cols[k] = np.char.mod("%.2f", x).astype("S5") if dt == "S5" else x > 0 if dt == "?" else x.astype(dt)
    with Dir() as d:
        fn = os.path.join(d, "x.h5")
        with h5py.File(fn, "w") as h:
            for k, v in cols.items():
                h[k] = v
        before = digest(d)
        sel = [None, list(rng.permutation(list(cols)))[: int(rng.integers(1, len(cols) + 1))], tuple(cols)]
        for a, b in ranges(rng, n):
            for keys in sel:
                for npint in (int, np.int64):
                    got = load_flat_hdf5(fn, istart=npint(a), iend=None if b is None else npint(b), keys=keys)
                mon.ok(set(got) == set(cols if keys is None else keys), "flat:columns", got=list(got), keys=keys)
                for k, v in got.items():
                    mon.same(v, cols[k][a:b], "flat:rows", a=a, b=b, key=k)
                    mon.ok(v.dtype == cols[k].dtype, "flat:type", got=str(v.dtype))
                mon.state("flat", n, shape(a, b, n), "keys" if keys else "all")
        got = load_flat_hdf5(fn)
        for k in cols:
            mon.same(got[k], cols[k], "flat:default-is-everything", key=k)
            parts = [load_flat_hdf5(fn, istart=a, iend=b, keys=[k])[k] for a, b in blocks(rng, n)]
            mon.same(np.concatenate(parts), cols[k], "flat:blocks-concatenate", key=k)
        try:
            load_flat_hdf5(fn, keys=["missing"])
            mon.fail("flat:missing-column-reported")
        except KeyError:
            mon.ok(True, "flat:missing-column-reported")
        with h5py.File(fn, "a"):  # the loader has closed the file
            mon.ok(True, "flat:closed")
        mon.ok(digest(d) == before, "flat:file-unchanged")
        mon.sample(columns={k: str(v.dtype) for k, v in cols.items()}, n=n)


def write_diffmah(rng, fn, n, t0, pattern):
    m, _ = gen.halo(rng, n, None, t0)
    m = np.array(m)
    loss = 10 ** rng.uniform(-6, 0, n)
    npts = rng.integers(5, 100, n)
    bad = np.zeros(n, bool)
    if pattern in ("some", "all", "nan"):
        bad = rng.random(n) < (1.0 if pattern == "all" else 0.4)
        loss = np.where(bad, -1.0, loss)
        m = np.where(bad, np.nan if pattern == "nan" else -1.0, m)
    if pattern in ("few", "some"):
        few = rng.random(n) < 0.3
        npts = np.where(few, rng.integers(0, 12, n), npts)
    edge = rng.random(n) < 0.2
    npts = np.where(edge, rng.integers(3, 8, n), npts)
    with h5py.File(fn, "w") as h:
        for k, v in zip(MCOLS, m):
            h[k] = v.astype(rng.choice(["f4", "f8"]))
        h["loss"], h["n_points_per_fit"] = loss, npts
        h["halo_id"] = np.arange(n)
    with h5py.File(fn, "r") as h:
        return np.array([h[k][:] for k in MCOLS], float), h["loss"][:], h["n_points_per_fit"][:]


@CASES(quick=20, thorough=400)
def diffmah(mon, rng):
    n = int((1, 2, 9, 60)[mon.rep % 4])
    pat = ("none", "some", "all", "few", "nan")[mon.rep % 5]
    t0 = (ls.T0_SMDPL, 13.8, float(rng.uniform(9, 16)))[mon.rep % 3]
    with Dir() as d:
        fn = os.path.join(d, "subvol_%d.h5" % mon.rep)
        M, loss, npts = write_diffmah(rng, fn, n, t0, pat)
        before = digest(d)
        for a, b in ranges(rng, n):
            for nmin in (None, 5, int(rng.integers(0, 12))):
                kw = {} if nmin is None else dict(npts_fit_min=nmin)
                use = (loss >= 0) & (npts >= (5 if nmin is None else nmin))
                res = [load_precomputed_diffmah_fits(fn, t0, istart=a, iend=b, **kw)]
                if t0 == ls.T0_SMDPL:
                    res.append(ls.load_smdpl_diffmah_fits(os.path.basename(fn), data_drn=d, istart=a, iend=b, **kw))
                else:
                    res.append(ls.load_smdpl_diffmah_fits(os.path.basename(fn), data_drn=d, t0=t0, istart=a, iend=b, **kw))
                for p, logmp0, L, N in res:
                    o = dict(a=a, b=b, nmin=nmin, pattern=pat)
                    u = use[a:b]
                    mon.ok(tuple(p._fields) == MCOLS, "diffmah:fields")
                    mon.same(N, npts[a:b], "diffmah:points-per-fit", **o)
                    mon.same(np.asarray(L)[u], loss[a:b][u], "diffmah:loss", **o)
                    mon.same(np.asarray(L)[~u], -np.ones((~u).sum()), "diffmah:unusable-fits-marked-in-loss", **o)
                    for k, got, want in zip(MCOLS, p, M):
                        mon.same(np.asarray(got, float)[u], want[a:b][u], "diffmah:parameters", column=k, **o)
                        mon.same(np.asarray(got, float)[~u], -np.ones((~u).sum()), "diffmah:unusable-fits-marked", column=k, **o)
                    mon.ok(np.shape(logmp0) == u.shape, "diffmah:mass-per-halo", **o)
                    if u.any():
                        w = R.lgmh(R.col([x[a:b][u] for x in M]), np.array([t0]), np.log10(t0))[:, 0]
                        mon.close(np.asarray(logmp0)[u], w, (1e-9 if mon.x64 else 2e-5) + 0 * w, "diffmah:present-day-mass", t0=t0, **o)
                    mon.ok(np.isfinite(np.asarray(logmp0)), "diffmah:mass-finite", **o)
                mon.state("diffmah", n, pat, shape(a, b, n), nmin is None)
        full = load_precomputed_diffmah_fits(fn, t0)
        parts = [load_precomputed_diffmah_fits(fn, t0, istart=a, iend=b) for a, b in blocks(rng, n) if b > a]
        for i in (2, 3):
            mon.same(np.concatenate([q[i] for q in parts]), full[i], "diffmah:blocks-concatenate")
        mon.close(np.concatenate([q[1] for q in parts]), full[1], 4 * eps(mon) * 20, "diffmah:blocks-concatenate-mass")
        for j in range(5):
            mon.same(np.concatenate([np.asarray(q[0][j]) for q in parts]), full[0][j], "diffmah:blocks-concatenate-parameters")
        mon.ok(digest(d) == before, "diffmah:file-unchanged")
        mon.sample(n=n, pattern=pat, t0=t0, loss=loss[:4], npts=npts[:4])


def check_mass(mon, t, sfr, lgsm, oracle, dt="f8"):
    want = np.log10(R.smh(t, sfr))
    got = np.asarray(lgsm, float)
    e = max(eps(mon), np.finfo(dt).eps)  # no better than the precision the file stores
    mon.close(got, want, (len(t) + 40) * e + 4 * e * np.abs(want), oracle + ":stellar-mass")


@CASES(quick=1, thorough=1)
def published(mon, rng):
    """the cosmology of each simulation as its source documents it, and the packaged target table"""
    for k, v in dict(H_BPL=0.678, H_TNG=0.6774, H_MDPL=0.678, FB_SMDPL=0.15696, H_SMDPL=0.6777, OM0_SMDPL=0.307115, T0_SMDPL=13.820002, FB_TNG=0.15733).items():
        mon.close(getattr(ls, k), v, 6e-6, "published:cosmology", name=k)
        mon.state("published", k)
    fn = os.path.join(os.path.dirname(targets.__file__), "tests", "testing_data", "smdpl_smhm_z0.h5")
    if os.path.isfile(fn):
        bins, smhm = targets.umachine_smhm_z0_allhalos()
        with h5py.File(fn, "r") as h:
            mon.same(bins, h["logmh_bins"][...], "published:target-bins")
            mon.same(smhm, h["smhm"][...], "published:target-relation")
        mon.ok(np.diff(bins) > 0, "published:target-bins-increase")
        mon.state("published", "targets")


@CASES(quick=6, thorough=80)
def simulations(mon, rng):
    n, nt = int(rng.choice([1, 2, 30])), int(rng.choice([2, 5, 60]))
    t = np.sort(rng.uniform(0.1, 13.8, nt))
    ids = rng.integers(0, 2**62, n)
    dt = str(rng.choice(["f4", "f8"]))
    sfr = np.where(rng.random((n, nt)) < 0.2, 0.0, 10 ** rng.normal(0, 1.5, (n, nt))).astype(dt)
    other = (sfr * 3 + 1).astype(dt)
    lgm = (rng.uniform(9, 12, (n, 1)) + np.cumsum(rng.normal(0.02, 0.1, (n, nt)), 1)).astype(dt)
    with Dir() as d:
        um = np.zeros(n, dtype=[("halo_id", "i8"), ("sfr_history_main_prog", dt, (nt,)), ("sfr_history_all_prog", dt, (nt,)), ("mpeak_history_main_prog", dt, (nt,))])
        um["halo_id"], um["sfr_history_main_prog"], um["sfr_history_all_prog"] = ids, sfr, other
        for nm, fun in (("bpl_diffmah_%s.npy", ls.load_bolshoi_data), ("um_histories_subsample_dr1_bpl_%s_diffmah.npy", ls.load_bolshoi_small_data),
                        ("mdpl2_diffmah_%s.npy", ls.load_mdpl_data), ("um_histories_dr1_mdpl2_small_%s.npy", ls.load_mdpl_small_data)):
            tf = "mdpl2_cosmic_time.npy" if "mdpl2" in nm else "bpl_cosmic_time.npy"
            wrong = "bpl_cosmic_time.npy" if "mdpl2" in nm else "mdpl2_cosmic_time.npy"
            np.save(os.path.join(d, tf), t)
            np.save(os.path.join(d, wrong), t[::-1] + 50)
            for g in ("cens", "sats", "orphans"):
                x = um.copy()
                x["halo_id"] += len(g)
                x["sfr_history_main_prog"] *= 1 if g == "cens" else 2
                np.save(os.path.join(d, nm % g), x)
            for g in ("cens", "sats", "orphans"):
                a, b, c, e = fun(g, data_drn=d)
                mon.same(a, ids + len(g), "um:identifiers", loader=fun.__name__)
                s = sfr * np.asarray(1 if g == "cens" else 2, dt)
                mon.same(c, s, "um:sfr", loader=fun.__name__)
                mon.same(e, t, "um:times", loader=fun.__name__)
                check_mass(mon, t, s.astype(float), b, "um", dt)
            mon.state("um", fun.__name__, n, nt)
        # TNG
        tng = np.zeros(n, dtype=[("mpeak", dt), ("sfh", dt, (nt,)), ("mpeakh", dt, (nt,))])
        tng["sfh"], tng["mpeakh"], tng["mpeak"] = sfr, lgm, lgm[:, -1]
        np.save(os.path.join(d, "tng_cosmic_time.npy"), t)
        np.save(os.path.join(d, "tng_diffmah.npy"), tng)
        small = tng.copy()
        small["sfh"] *= 2
        np.save(os.path.join(d, "tng_small.npy"), small)
        before = digest(d)
        a, b, c, e, f, g = ls.load_tng_data(d)
        mon.same(a, np.arange(n), "tng:identifiers")
        mon.same(c, sfr, "tng:sfr")
        mon.same(e, t, "tng:times")
        check_mass(mon, t, sfr.astype(float), b, "tng", dt)
        want = np.array([[max(r[: j + 1]) for j in range(nt)] for r in lgm.astype(float) - np.log10(0.6774)])
        mon.close(f, want, 2e-6 if dt == "f4" else 1e-12, "tng:halo-mass-running-maximum")
        mon.ok(np.diff(f, axis=1) >= 0, "tng:halo-mass-never-decreases")
        mon.same(g, np.asarray(f)[:, -1], "tng:present-day-mass")
        a, b, c, e = ls.load_tng_small_data("cens", data_drn=d)
        mon.same(a, np.arange(n), "tng-small:identifiers")
        mon.same(c, small["sfh"], "tng-small:sfr")
        mon.same(e, t, "tng-small:times")
        check_mass(mon, t, small["sfh"].astype(float), b, "tng-small", dt)
        # UniverseMachine binaries through a stand-in reader
        mp = np.where(rng.random((n, nt)) < 0.2, 0.0, 10 ** lgm.astype(float))
        mp[rng.random((n, nt)) < 0.1] = 9.9e6
        um["mpeak_history_main_prog"] = mp
        np.savetxt(os.path.join(d, "smdpl_cosmic_time.txt"), t, fmt="%.18e")
        calls = []

        def reader(subvols, root_dirname=None, galprops=None):
            calls.append((list(subvols), root_dirname, list(galprops)))
            return {k: um[k].copy() for k in galprops}

        old = (ls.HAS_UM_LOADER, getattr(ls, "load_mock_from_binaries", None))
        try:
            ls.HAS_UM_LOADER, ls.load_mock_from_binaries = True, reader
            for fun, s in ((ls.load_SMDPL_nomerging_data, sfr), (ls.load_SMDPL_DR1_data, other)):
                a, b, c, e, f, g = fun([3, 5], data_drn=d)
                mon.ok(calls[-1][0] == [3, 5] and calls[-1][1] == d, "smdpl:reads-requested-subvolumes", got=calls[-1])
                mon.same(a, ids, "smdpl:identifiers")
                mon.same(c, s, "smdpl:sfr", loader=fun.__name__)
                mon.same(e, t, "smdpl:times")
                check_mass(mon, t, s.astype(float), b, "smdpl", dt)
                mm = um["mpeak_history_main_prog"].astype(float)
                w = np.maximum.accumulate(np.log10(np.where(mm < 1e7, 1.0, mm)), axis=1)
                mon.close(f, w, 2e-6 if dt == "f4" else 1e-12, "smdpl:halo-mass-running-maximum", loader=fun.__name__)
                mon.same(g, np.asarray(f)[:, -1], "smdpl:present-day-mass")
                mon.state("smdpl", fun.__name__, n, nt)
        finally:
            ls.HAS_UM_LOADER = old[0]
            if old[1] is None:
                del ls.load_mock_from_binaries
            else:
                ls.load_mock_from_binaries = old[1]
        if not ls.HAS_UM_LOADER:
            try:
                ls.load_SMDPL_DR1_data([0], data_drn=d)
                mon.fail("smdpl:missing-reader-reported")
            except ImportError:
                mon.ok(True, "smdpl:missing-reader-reported")
        after = digest(d)
        mon.ok(all(after[k] == v for k, v in before.items()), "simulations:files-unchanged")
        mon.sample(n=n, nt=nt, dtype=dt)


def galacticus_file(rng, fn, n, nm, nt, empties):
    """nested ragged tables as Galacticus writes them; returns what each galaxy holds"""
    vv = h5py.vlen_dtype(h5py.vlen_dtype(np.float64))
    v1 = h5py.vlen_dtype(np.float64)
    truth = {}
    with h5py.File(fn, "w") as h:
        g = h.create_group("Outputs/Output1/nodeData")
        tarr = np.sort(rng.uniform(0.1, 13.8, nt))
        for col in (eg.DISK_COLNAME, eg.BULGE_COLNAME):
            ds = g.create_dataset(col, (n,), dtype=vv)
            tot, ins = np.zeros((n, nt)), np.zeros((n, nt))
            has = rng.random(n) >= empties
            has[rng.integers(n)] = True
            for i in range(n):
                if not has[i]:
                    continue
                x = 10 ** rng.uniform(0, 9, (2 * nm, nt))
                e = np.empty(2 * nm, dtype=object)
                for j in range(2 * nm):
                    e[j] = x[j]
                ds[i] = e
                tot[i], ins[i] = x[:nm].sum(0), x[nm:].sum(0)
            ds.attrs["time"] = tarr
            truth[col] = (tot, ins)
        mah, mt = g.create_dataset("haloAccretionHistoryMass", (n,), dtype=v1), g.create_dataset("haloAccretionHistoryTime", (n,), dtype=v1)
        M, T = [], []
        for i in range(n):
            k = int(rng.integers(0, 9))
            M.append(rng.uniform(0, 1, k))
            T.append(rng.uniform(0, 1, k))
            mah[i], mt[i] = M[-1], T[-1]
        g["nodeIsIsolated"] = rng.integers(0, 2, n)
        g["basicTimeLastIsolated"] = rng.uniform(0, 14, n)
        truth.update(tarr=tarr, M=M, T=T, iso=g["nodeIsIsolated"][:], last=g["basicTimeLastIsolated"][:])
    return truth


@CASES(quick=10, thorough=150, modes=("x64",))
def galacticus_tables(mon, rng):
    n = int((1, 3, 12, 40)[mon.rep % 4])
    nm, nt = int(rng.integers(1, 5)), int(rng.integers(2, 9))
    empt = (0.0, 0.4, 0.8)[mon.rep % 3]
    with Dir() as d:
        fn = os.path.join(d, "g.hdf5")
        T = galacticus_file(rng, fn, n, nm, nt, empt)
        before = digest(d)
        mon.ok(eg.get_nhalos_tot(fn) == n, "tables:count", got=eg.get_nhalos_tot(fn))
        for col in (eg.DISK_COLNAME, eg.BULGE_COLNAME):
            for a, b in [r for r in ranges(rng, n, over=False) if r[0] < n]:
                tot, ins, tt = eg.extract_galacticus_sfh_tables(fn, col, istart=a, iend=b)
                o = dict(col=col, a=a, b=b)
                mon.close(tot, T[col][0][a:b], 1e-12 * T[col][0][a:b], "tables:total-mass-formed", **o)
                mon.close(ins, T[col][1][a:b], 1e-12 * T[col][1][a:b], "tables:in-situ-mass-formed", **o)
                mon.same(tt, T["tarr"], "tables:times")
                mon.state("tables", n, shape(a, b, n), "empty%.1f" % empt)
            full = eg.extract_galacticus_sfh_tables(fn, col)
            parts = [eg.extract_galacticus_sfh_tables(fn, col, istart=a, iend=b) for a, b in blocks(rng, n)]
            for k in (0, 1):
                mon.same(np.concatenate([p[k] for p in parts]), full[k], "tables:blocks-concatenate", col=col)
        for a, b in ranges(rng, n):
            m, t, iso, last = eg.extract_galacticus_mah_tables(fn, istart=a, iend=b)
            mon.ok(len(m) == len(T["M"][a:b]) and len(t) == len(T["T"][a:b]), "mah:rows", a=a, b=b)
            for x, y in zip(list(m) + list(t), T["M"][a:b] + T["T"][a:b]):
                mon.same(x, y, "mah:histories", a=a, b=b)
            mon.same(iso, T["iso"][a:b], "mah:centrals")
            mon.same(last, T["last"][a:b], "mah:last-isolated")
        # the command line tool writes the same tables
        for comp, col in (("disk", eg.DISK_COLNAME), ("bulge", eg.BULGE_COLNAME)):
            a = int(rng.integers(0, n))
            b = (-1, n, int(rng.integers(a + 1, n + 1)))[int(rng.integers(3))]
            z = slice(a, None if b == -1 else b)
            old = sys.argv
            try:
                sys.argv = ["x", comp, "-indrn", d, "-bname", "g.hdf5", "-outdrn", d, "-istart", str(a), "-iend", str(b)]
                import contextlib
                import io

                with contextlib.redirect_stdout(io.StringIO()):
                    runpy.run_path(eg.__file__, run_name="__main__")
            finally:
                sys.argv = old
            mon.close(np.load(os.path.join(d, "delta_mstar_tot_%s.npy" % comp)), T[col][0][z], 1e-12 * T[col][0][z], "tool:total")
            mon.close(np.load(os.path.join(d, "delta_mstar_in_situ_%s.npy" % comp)), T[col][1][z], 1e-12 * T[col][1][z], "tool:in-situ")
            mon.same(np.load(os.path.join(d, "tarr_%s.npy" % comp)), T["tarr"], "tool:times")
        after = digest(d)
        mon.ok(after["g.hdf5"] == before["g.hdf5"], "tables:file-unchanged")
        mon.sample(n=n, n_met=nm, nt=nt, row=T[eg.DISK_COLNAME][0][0])


@CASES(quick=20, thorough=300, modes=("x64",))
def galacticus_rates(mon, rng):
    n, nt = int((1, 2, 25)[mon.rep % 3]), int(rng.integers(2, 12))
    tarr = np.sort(rng.uniform(0.05, 13.8, nt)) if mon.rep % 2 else np.linspace(0.3, 13.8, nt)
    with Dir() as d:
        D = {}
        for k in ("in_situ_bulge", "in_situ_disk", "tot_bulge", "tot_disk"):
            D[k] = np.where(rng.random((n, nt)) < 0.2, 0.0, 10 ** rng.uniform(5, 10, (n, nt)))
            np.save(os.path.join(d, "delta_mstar_%s.npy" % k), D[k])
        np.save(os.path.join(d, "tarr_bulge.npy"), tarr)
        iso = rng.integers(0, 2, n)
        with h5py.File(os.path.join(d, lg.BN_GALCUS), "w") as h:
            h["Outputs/Output1/nodeData/nodeIsIsolated"] = iso
        dt = np.array([tarr[0]] + [tarr[i] - tarr[i - 1] for i in range(1, nt)])
        want = {
            "sfh_in_situ": (D["in_situ_bulge"] + D["in_situ_disk"]) / dt / 1e9,
            "sfh_tot": (D["tot_bulge"] + D["tot_disk"]) / dt / 1e9,
            "is_cen": iso,
            "tarr": tarr,
        }

        def check(got, a, b, oracle):
            mon.ok(set(got) == set(want), oracle + ":columns", got=list(got))
            for k in want:
                w = want[k] if k == "tarr" else want[k][a:b]
                mon.close(got[k], w, 1e-12 * np.abs(w), oracle + ":" + k, a=a, b=b)

        check(lg.load_galacticus_sfh_target_data(d), 0, None, "target")
        lg.write_galacticus_sfh_data_block(d)
        fn = os.path.join(d, lg.BNAME_SFH_DATA)
        check(load_flat_hdf5(fn), 0, None, "written")
        for a, b in ranges(rng, n):
            check(lg.load_galacticus_sfh_data_block(fn, a, b), a, b, "block")
            mon.state("rates", n, shape(a, b, n))
        # mass is conserved by the conversion
        g = lg.load_galacticus_sfh_target_data(d)
        mon.close((g["sfh_tot"] * dt * 1e9).sum(1), (D["tot_bulge"] + D["tot_disk"]).sum(1), 1e-11 * (1 + (D["tot_bulge"] + D["tot_disk"]).sum(1)), "target:mass-conserved")
        # the bundle of all results keeps every table under its own name
        dm, ds = os.path.join(d, "mah"), os.path.join(d, "star")
        os.makedirs(dm), os.makedirs(ds)
        T = {}
        for q, (drn, bn) in dict(diffmah_fit_data=(dm, lg.BN_DIFFMAH), diffstar_in_situ_fit_data=(ds, lg.BN_DIFFSTAR_IN_SITU), diffstar_in_plus_ex_situ_fit_data=(ds, lg.BN_DIFFSTAR_IN_PLUS_EX_SITU)).items():
            T[q] = {c: rng.normal(0, 1, n) for c in ("loss", "logm0" if "mah" in q else "lgmcrit", "halo_id")}
            with h5py.File(os.path.join(drn, bn), "w") as h:
                for c, v in T[q].items():
                    h[c] = v
        r = lg.load_galacticus_diffstar_data(d, diffstar_drn=ds, diffmah_drn=dm)
        for q in T:
            got = getattr(r, q)
            mon.ok(set(got) == set(T[q]), "bundle:columns", table=q)
            for c in T[q]:
                mon.same(got[c], T[q][c], "bundle:values", table=q, column=c)
        check(r.galcus_sfh_data, 0, None, "bundle")
        mon.state("bundle", n, nt)
