"""C24: the measured stellar-to-halo-mass targets account for every usable halo exactly once."""

import hashlib
import os

import h5py
import numpy as np

from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_halopop
from diffstar.defaults import FB, LGT0, T_TABLE_MIN
from diffstar import DiffstarParams, calc_sfh_galpop
from diffstar.data_loaders import load_galacticus_sfh as lgs

from .. import core, gen, ranks
from .c23 import PARAMS, POLICIES, Scratch, digest, pool

CASES = core.Registry()
RULE = (
    "Each execution writes a synthetic simulation (halos, diffmah fits, diffstar fits with failures), runs the real measurement script in "
    "1..6 real processes under a coordinator that chooses the interleaving, and compares the three files it writes, bin by bin and sampled halo by "
    "sampled halo, with one direct count over the whole catalogue. Classes are (script, ranks, policy, options) and the distinct interleavings."
)
ASSUMPTIONS = [
    "TNG: as many ranks as chunks; the number of chunks is set in the helper module before the run",
    "Galacticus: the run uses one file for all ranks' results, so every rank measures the whole sample",
    "astropy is absent here; a stand-in supplies the age of the universe as a function of redshift",
    "every chunk or subvolume has at least one usable central and one usable satellite (scipy's binned_statistic refuses an empty sample)",
    "no halo lies within 1e-4 dex of a bin edge and no target redshift within 1e-3 Gyr of a tabulated time",
]
DRN = "scripts/diffstarpop_scripts"
SCRIPTS = {k: "measure_smhm_%s_script_mpi_mgash.py" % k for k in ("tng", "smdpl", "galacticus")}
T_TNG = ("/lcrc/project/halotools/alarcon/data/",)
SIMS = {
    "DR1_nomerging": (
        "/lcrc/project/halotools/SMDPL/dr1_no_merging_upidh/sfh_binary_catalogs/a_1.000000/",
        "/lcrc/project/halotools/SMDPL/dr1_no_merging_upidh/diffmah_tpeak_fits/",
        "/lcrc/project/halotools/alarcon/results/mgash/UniverseMachine/DR1_nomerging/",
    ),
    "DR1": (
        "/lcrc/project/halotools/UniverseMachine/SMDPL/sfh_binaries_dr1_bestfit/a_1.000000/",
        "/lcrc/project/halotools/UniverseMachine/SMDPL/sfh_binaries_dr1_bestfit/diffmah_tpeak_fits/",
        "/lcrc/project/halotools/alarcon/results/mgash/UniverseMachine/DR1/",
    ),
}
GAL = "/lcrc/project/halotools/Galacticus/diffstarpop_data/"
MBINS = {"tng": np.linspace(11, 14.75, 12), "smdpl": np.linspace(11, 14.75, 12), "galacticus": np.linspace(11, 14.5, 12)}
TT = np.linspace(T_TABLE_MIN, 10**LGT0, 200)
OUT = ("smdpl_smhm.h5", "smdpl_smhm_samples_haloes.h5", "smdpl_mstar_ssfr.h5")


class Halos:
    """n halos with their fits; what a measurement should see of the usable ones"""

    def __init__(self, rng, n, ages, edges, cen_frac=None):
        m, _ = gen.halo(rng, 4 * n, None, 13.8, strata=("uniform", "default", "cluster", "slow"))
        m = [np.array(x) for x in m]
        m[0] = rng.uniform(11.0, 14.9, 4 * n)
        m[0] = np.where(rng.random(4 * n) < 0.3, rng.uniform(12.0, 12.6, 4 * n), m[0])
        m[4] = 13.8 * rng.uniform(0.9, 1.5, 4 * n)
        p, _ = gen.galaxy(rng, 4 * n)
        m, p = [np.float32(x).astype(float) for x in m], [np.float32(x).astype(float) for x in p]
        self.tid = [int(np.searchsorted(TT, a)) for a in ages]
        mah = DEFAULT_MAH_PARAMS._make(m)
        lm = np.asarray(mah_halopop(mah, TT, LGT0)[1], float)[:, self.tid]
        far = np.abs(lm[:, :, None] - edges).min(axis=(1, 2)) > 1e-4
        sfh, smh = calc_sfh_galpop(DiffstarParams(*p), mah, TT, lgt0=LGT0, fb=FB, return_smh=True)
        ls = np.log10(np.asarray(smh, float))[:, self.tid]
        lssfr = np.log10(np.asarray(sfh, float))[:, self.tid] - ls
        far &= np.isfinite(ls).all(1) & np.isfinite(lssfr).all(1)
        far &= np.abs(ls[:, :, None] - np.linspace(7, 13, 26)).min(axis=(1, 2)) > 1e-4
        k = np.flatnonzero(far)[:n]
        if len(k) < n:
            raise RuntimeError("too few halos away from the edges")
        self.mah, self.par = [x[k] for x in m], [x[k] for x in p]
        self.lm, self.ls, self.lssfr = lm[k], ls[k], np.maximum(lssfr[k], -12.0)
        self.n = n
        self.cen = rng.random(n) < (cen_frac if cen_frac is not None else rng.choice([0.0, 0.5, 0.8, 1.0]))
        kind = rng.choice(["ok", "nomah", "nosfh", "failed"], n, p=[0.7, 0.1, 0.1, 0.1])
        self.kind = kind
        self.force(0, True), self.force(1, False)
        self.id = rng.integers(0, 2**62, n)

    def force(self, i, cen):
        self.kind[i], self.cen[i] = "ok", cen
        self.use = self.kind == "ok"

    def write_mah(self, fn):
        with h5py.File(fn, "w") as h:
            bad = self.kind == "nomah"
            for k, v in zip(("logm0", "logtc", "early_index", "late_index", "t_peak"), self.mah):
                h[k] = np.where(bad, -1.0, v)
            h["loss"] = np.where(bad, -1.0, 1e-3)
            h["n_points_per_fit"] = np.full(self.n, 50)

    def write_sfh(self, fn):
        with h5py.File(fn, "w") as h:
            bad = np.isin(self.kind, ("nomah", "nosfh"))
            for k, v in zip(PARAMS, self.par):
                h[k] = np.where(bad, -99.0, v)
            h["loss"] = np.where(bad, -1.0, 1e-2)
            h["success"] = np.where(bad, -1, np.where(self.kind == "failed", 0, 1))
            h["halo_id"] = self.id


def cuml(z):
    v = -5 * z**7 / 69984 + 7 * z**5 / 2592 - 35 * z**3 / 864 + 35 * z / 96 + 0.5
    return np.where(z < -3, 0.0, np.where(z > 3, 1.0, v))


def tw(x, bins):
    """(n, nbins) triweight membership; width is the mean bin"""
    sig = np.mean(np.diff(bins))
    return cuml((x[:, None] - bins[:-1]) / sig) - cuml((x[:, None] - bins[1:]) / sig)


def expect(parts, nz, mb, sb, qb):
    """direct count over all the halos of all the parts"""
    cat = lambda f: np.concatenate([f(h) for h in parts])
    use = cat(lambda h: h.use)
    lm, ls, lq, cen = cat(lambda h: h.lm)[use], cat(lambda h: h.ls)[use], cat(lambda h: h.lssfr)[use], cat(lambda h: h.cen)[use]
    nm, ns, nq = len(mb) - 1, len(sb) - 1, len(qb) - 1
    E = {k: np.zeros((nz, nm)) for k in ("counts", "hist", "counts_cen", "counts_sat", "counts_diff", "hist_diff")}
    E.update(mstar_counts=np.zeros((nz, nm, ns)), mstar_wcounts=np.zeros((nz, nm, ns)), mstar_ssfr_wcounts_cent=np.zeros((nz, nm, ns, nq)), mstar_ssfr_wcounts_sat=np.zeros((nz, nm, ns, nq)))
    for z in range(nz):
        w = tw(lm[:, z], mb)
        E["counts_diff"][z], E["hist_diff"][z] = w.sum(0), (w * ls[:, z, None]).sum(0)
        ws, wq = tw(ls[:, z], sb), tw(lq[:, z], qb)
        for j in range(nm):
            s = (lm[:, z] > mb[j]) & (lm[:, z] < mb[j + 1])
            E["counts"][z, j], E["hist"][z, j] = s.sum(), ls[s, z].sum()
            E["counts_cen"][z, j], E["counts_sat"][z, j] = (s & cen).sum(), (s & ~cen).sum()
            E["mstar_counts"][z, j] = np.histogram(ls[s, z], sb)[0]
            E["mstar_wcounts"][z, j] = ws[s].sum(0)
            E["mstar_ssfr_wcounts_cent"][z, j] = np.einsum("na,nb->ab", ws[s & cen], wq[s & cen])
            E["mstar_ssfr_wcounts_sat"][z, j] = np.einsum("na,nb->ab", ws[s & ~cen], wq[s & ~cen])
    return E, int(use.sum())


def judge(mon, out, parts, zs, limit, upid, /, **kw):
    D = {}
    for f in OUT:
        if not mon.ok(os.path.isfile(os.path.join(out, f)), "output:written", file=f, **kw):
            return
        with h5py.File(os.path.join(out, f), "r") as h:
            D[f] = {k: h[k][...] for k in h}
    A, S, P = (D[f] for f in OUT)
    nz, mb = len(zs), A["logmh_bins"]
    E, nuse = expect(parts, nz, mb, P["logmstar_bins_pdf"], P["logssfr_bins_pdf"])
    for k, w in E.items():
        g = (A if k in A else P)[k]
        if not mon.ok(g.shape == w.shape, "targets:shape", what=k, **kw):
            continue
        exact = k in ("counts", "counts_cen", "counts_sat", "mstar_counts")
        mon.close(g, w, 0 if exact else 2e-5 * (1 + np.abs(w)) + 2e-5 * nuse * (15 if k.startswith("hist") else 1), "targets:" + k, usable=nuse, **kw)
    mon.same(A["counts_cen"] + A["counts_sat"], A["counts"], "targets:cen+sat", **kw)
    for a, b, c in (("smhm", "hist", "counts"), ("smhm_diff", "hist_diff", "counts_diff")):
        with np.errstate(all="ignore"):
            w = A[b] / A[c]
        mon.ok(np.array_equal(A[a], w, equal_nan=True) or np.allclose(A[a], w, rtol=1e-6, equal_nan=True), "targets:" + a, **kw)
    for d in (A, P):
        mon.close(d["redshift_targets"], zs, 1e-12, "targets:redshifts", **kw)
        mon.close(d["age_targets"], TT[parts[0].tid], 1e-6, "targets:age-of-the-redshift", **kw)
    # the sampled halos
    n = len(S["logmh_id"])
    shapes = {k: np.shape(v) for k, v in S.items()}
    want = dict(mah_params_samp=(5, n), ms_params_samp=(4, n), q_params_samp=(4, n), **{k: (n,) for k in ("logmh_id", "logmh_val", "upid_samp", "tobs_id", "tobs_val", "redshift_val")})
    if not mon.ok(shapes == want, "samples:shape", got=shapes, **kw):
        return
    rows = np.concatenate([S["mah_params_samp"], S["ms_params_samp"], S["q_params_samp"]]).T
    own = {}
    for p, h in enumerate(parts):
        for i in range(h.n):
            own[np.float32([*[x[i] for x in h.mah], *[x[i] for x in h.par]]).tobytes()] = (p, i)
    seen, per = set(), {}
    zi, ji = S["tobs_id"].astype(int), S["logmh_id"].astype(int)
    for r in range(n):
        who = own.get(np.float32(rows[r]).tobytes())
        if not mon.ok(who is not None, "samples:is-a-halo", row=r, **kw):
            continue
        p, i = who
        h, z, j = parts[p], zi[r], ji[r]
        mon.ok(bool(h.use[i]), "samples:usable", kind=str(h.kind[i]), **kw)
        if not mon.ok(0 <= z < nz and 0 <= j < len(mb) - 1, "samples:labels", **kw):
            continue
        mon.ok(mb[j] <= h.lm[i, z] < mb[j + 1], "samples:in-its-mass-bin", mass=float(h.lm[i, z]), bin=j, **kw)
        mon.ok((z, p, i) not in seen, "samples:no-repeats", **kw)
        seen.add((z, p, i))
        per[(p, z, j)] = per.get((p, z, j), 0) + 1
        mon.ok(S["upid_samp"][r] == upid(h, i), "samples:central-or-satellite", got=int(S["upid_samp"][r]), want=int(upid(h, i)), **kw)
    for p, h in enumerate(parts):
        for z in range(nz):
            for j in range(len(mb) - 1):
                s = int((h.use & (h.lm[:, z] > mb[j]) & (h.lm[:, z] < mb[j + 1])).sum())
                mon.ok(per.get((p, z, j), 0) == min(limit, s), "samples:how-many", got=per.get((p, z, j), 0), have=s, limit=limit, **kw)
    if n:
        mon.close(S["logmh_val"], 0.5 * (mb[ji] + mb[ji + 1]), 1e-6, "samples:bin-centre", **kw)
        mon.close(S["tobs_val"], TT[parts[0].tid][zi], 1e-5, "samples:time", **kw)
        mon.close(S["redshift_val"], np.asarray(zs)[zi], 1e-6, "samples:redshift", **kw)


def redshifts(rng):
    for _ in range(100):
        k = int(rng.integers(1, 4))
        zs = [0.0] + [round(float(z), 2) for z in rng.uniform(0.05, 2.5, k - 1)]
        zs = [zs[i] for i in rng.permutation(k)]
        a = ranks.age_gyr(np.array(zs))
        if all(z == 0 or np.abs(TT - x).min() > 2e-3 for z, x in zip(zs, a)):
            a = np.where(np.array(zs) == 0, TT[-1], a)
            return zs, a
    raise RuntimeError("no redshifts")


def before_run(rng, root, own):
    out = os.path.join(root, ("out", "out dir/x", "res[1]")[int(rng.integers(3))])
    os.makedirs(out)
    names = ["notes.txt", "_tmp_subvol_notes.txt", "tmp_subvol_0.h5", "_tmp_subvol_77_other_job.h5", "a b.dat"]
    for f in names:
        if rng.random() < 0.7:
            open(os.path.join(out, f), "w").write("do not touch %s\n" % f)
    for f in own:
        if rng.random() < 0.2:
            open(os.path.join(out, f), "w").write("left over by an earlier run\n")
    return out


def run(mon, rng, kind, n, root, out, av, own, patch, policy):
    before = digest(root)
    res = pool(n).run(os.path.join(core.REPO, DRN, SCRIPTS[kind]), ["-outdrn", out, *av], n, root, rng, policy, patch=patch)
    after = digest(root)
    kw = dict(script=kind, ranks=n, policy=policy, argv=av)
    mon.ok(res["deadlock"] is None, "ranks:no-deadlock", waiting=res["deadlock"], **kw)
    mon.ok(not res["err"], "ranks:no-error", errors=res["err"], **kw)
    mon.state("interleaving", hashlib.sha1(repr(res["log"]).encode()).hexdigest()[:12])
    mon.state(kind, n, policy)
    mon.sample(script=kind, ranks=n, policy=policy, events=len(res["log"]), first=[list(map(str, e)) for e in res["log"][:6]])
    rel = os.path.relpath(out, root)
    new, own = [os.path.join(rel, f) for f in OUT], [os.path.join(rel, f) for f in own]
    for f in after:
        mon.ok(f in before or f in new, "files:nothing-left-behind", file=f, **kw)
        mon.ok(f not in own, "files:no-temporary-left", file=f, **kw)
    for f, d in before.items():
        mon.ok(f in new or f in own or after.get(f) == d, "files:others-untouched", file=f, gone=f not in after, **kw)
    return res["deadlock"] is None and not res["err"], kw


def options(rng, zs):
    return ["-z_bins", *map(str, zs)]


@CASES(quick=6, thorough=80, modes=("f32",))
def tng(mon, rng):
    n = int((1, 3, 2, 5, 4, 6)[mon.rep % 6])
    policy = POLICIES[mon.rep % 5]
    zs, ages = redshifts(rng)
    nh = int(rng.integers(2 * n, 8 * n + 8))
    H = Halos(rng, nh, ages, MBINS["tng"])
    cuts = np.array_split(np.arange(nh), n)
    for c in cuts:
        H.force(c[0], True), H.force(c[1], False)
    parts = [part(H, c) for c in cuts]
    limit = 10**6
    patch = dict(NCHUNKS=n)
    if mon.rep % 2:
        limit = int(rng.integers(1, 3))
        patch["N_HALOS_PER_SUBVOL"] = limit
    with Scratch() as root:
        data = root + T_TNG[0]
        dm, ds = os.path.join(root, "mah"), os.path.join(root, "sfh")
        for d in (data, dm, ds):
            os.makedirs(d)
        nt = 9
        x = np.zeros(nh, dtype=[("cen1_sat0", "i4", (nt,))])
        x["cen1_sat0"] = rng.integers(0, 2, (nh, nt))
        x["cen1_sat0"][:, -1] = H.cen
        np.save(os.path.join(data, "tng_diffmah.npy"), x)
        np.save(os.path.join(data, "tng_cosmic_time.npy"), np.linspace(0.4, 13.8, nt))
        H.write_mah(os.path.join(dm, "diffmah_tng_fits.hdf5"))
        H.write_sfh(os.path.join(ds, "diffstar_tng_fits.hdf5"))
        own = ["_tmp_subvol_%d_tng_smhm.h5" % i for i in range(n)]
        out = before_run(rng, root, own)
        okay, kw = run(mon, rng, "tng", n, root, out, ["-diffmah_drn", dm, "-diffstar_drn", ds, *options(rng, zs)], own, patch, policy)
        if okay:
            judge(mon, out, parts, zs, limit, lambda h, i: -1 if h.cen[i] else 0, **kw)
    mon.state("tng", n, len(zs), limit < 10)


def part(H, idx):
    h = object.__new__(Halos)
    h.n, h.tid = len(idx), H.tid
    h.mah, h.par = [x[idx] for x in H.mah], [x[idx] for x in H.par]
    for k in ("lm", "ls", "lssfr", "cen", "kind", "use", "id"):
        setattr(h, k, getattr(H, k)[idx])
    return h


@CASES(quick=6, thorough=80, modes=("f32",))
def smdpl(mon, rng):
    n = int((2, 1, 3, 4, 6, 5)[mon.rep % 6])
    policy = POLICIES[mon.rep % 5]
    sim = ("DR1_nomerging", "DR1")[mon.rep % 2]
    zs, ages = redshifts(rng)
    nv = int(rng.integers(1, 7))
    mixed = mon.rep % 3 == 1  # one name shorter than the others, in either alphabetical place
    if mixed:
        nv = max(nv, 2)
        one, rest = rng.choice(np.arange(0, 10)), np.concatenate([np.arange(30, 100), np.arange(300, 576)])
        vols = np.sort(np.append(rng.choice(rest, nv - 1, replace=False), one))
    elif rng.random() < 0.5:
        vols = np.sort(rng.choice(np.arange(0, 10), nv, replace=False))
    else:
        vols = np.sort(rng.choice(np.arange(0, 576), nv, replace=False))
    parts = []
    limit, patch = 20000 // nv, {}
    if rng.random() < 0.5:
        patch["N_HALOS_MAX"] = int(rng.integers(nv, 3 * nv))
        limit = patch["N_HALOS_MAX"] // nv
    pad = bool(rng.random() < 0.5) and not mixed
    with Scratch() as root:
        din, dm, ds = (root + d for d in SIMS[sim])
        for d in (din, dm, ds):
            os.makedirs(d)
        name = (lambda v: "%03d" % v) if pad else (lambda v: "%d" % v)
        padm = bool(rng.random() < 0.5) or sim == "DR1"
        namem = name if sim == "DR1" else ((lambda v: "%03d" % v) if padm else (lambda v: "%d" % v))
        if not pad and not (vols < 10).any():
            vols[0] = int(rng.integers(0, 10))
        if sim != "DR1" and not padm and not (vols < 10).any():
            vols[0] = int(rng.integers(0, 10))
        for v in vols:
            h = Halos(rng, int(rng.integers(2, 14)), ages, MBINS["smdpl"])
            h.upid = np.where(h.cen, -1, np.where(rng.random(h.n) < 0.3, rng.integers(0, 3, h.n), rng.integers(0, 2**40, h.n)))
            x = np.zeros(h.n, dtype=[("halo_id", "i8"), ("upid", "i8"), ("x", "f4")])
            x["halo_id"], x["upid"] = h.id, h.upid
            np.save(os.path.join(din, "mock_%d.npy" % v), x)
            h.write_sfh(os.path.join(ds, "diffstar_fits_subvol_%s.hdf5" % name(v)))
            h.write_mah(os.path.join(dm, ("subvol_%s_diffmah_fits.h5" if sim != "DR1" else "diffmah_fits_subvol_%s.hdf5") % namem(v)))
            parts.append(h)
        gone = []
        if nv > 1 and mon.rep % 3 == 2:  # a subvolume whose halo fits are missing
            gone = [int(vols[int(rng.integers(1, nv))])]
            os.remove(os.path.join(dm, ("subvol_%s_diffmah_fits.h5" if sim != "DR1" else "diffmah_fits_subvol_%s.hdf5") % namem(gone[0])))
            parts = [h for h, v in zip(parts, vols) if v not in gone]
        open(os.path.join(ds, "diffstar_fits_subvol_x.hdf5.bak"), "w").write("not a catalogue\n")
        own = ["_tmp_subvol_%d_smdpl_smhm.h5" % v for v in vols]
        out = before_run(rng, root, own)
        okay, kw = run(mon, rng, "smdpl", n, root, out, ["-sim_name", sim, *options(rng, zs)], own, patch, policy)
        if okay:
            judge(mon, out, parts, zs, limit, lambda h, i: h.upid[i], **kw)
            with h5py.File(os.path.join(out, OUT[0]), "r") as f:
                mon.same(np.flatnonzero(f["subvol_used"][...]), np.array([v for v in np.sort(vols) if v not in gone]), "targets:subvolumes-used", **kw)
    mon.state("smdpl", sim, n, nv, pad, limit < 10, len(gone))


@CASES(quick=4, thorough=50, modes=("f32",))
def galacticus(mon, rng):
    n = int((1, 2, 1, 3)[mon.rep % 4])
    policy = POLICIES[mon.rep % 5]
    which = ("in_situ", "in_plus_ex_situ")[mon.rep % 2]
    zs, ages = redshifts(rng)
    nh = int(rng.integers(4, 30))
    H = Halos(rng, nh, ages, MBINS["galacticus"])
    other = Halos(rng, nh, ages, MBINS["galacticus"])
    # both fits of a galaxy share the halo
    other.mah, other.kind = H.mah, np.where(H.kind == "nomah", "nomah", other.kind)
    limit, patch = 20000, {}
    if mon.rep % 2:
        limit = patch["N_HALOS_MAX"] = int(rng.integers(1, 4))
    with Scratch() as root:
        d = root + GAL
        dm, ds = os.path.join(root, "mah"), os.path.join(root, "sfh")
        for x in (d, dm, ds):
            os.makedirs(x)
        nt = 6
        t = np.linspace(1.0, 13.8, nt)
        np.save(os.path.join(d, "tarr_bulge.npy"), t)
        np.save(os.path.join(dm, "tarr_disk.npy"), t)
        for k in ("in_situ", "tot"):
            for c in ("bulge", "disk"):
                np.save(os.path.join(d, "delta_mstar_%s_%s.npy" % (k, c)), 10 ** rng.uniform(6, 9, (nh, nt)))
        with h5py.File(os.path.join(d, lgs.BN_GALCUS), "w") as f:
            f["Outputs/Output1/nodeData/nodeIsIsolated"] = H.cen.astype("i8")
        H.write_mah(os.path.join(dm, lgs.BN_DIFFMAH))
        a, b = (H, other) if which == "in_situ" else (other, H)
        a.write_sfh(os.path.join(ds, lgs.BN_DIFFSTAR_IN_SITU))
        b.write_sfh(os.path.join(ds, lgs.BN_DIFFSTAR_IN_PLUS_EX_SITU))
        own = ["_tmp_subvol_%d_galacticus_smhm.h5" % i for i in range(n)]
        out = before_run(rng, root, own)
        av = ["-sfh_type", which, "-diffmah_drn", dm, "-diffstar_drn", ds, *options(rng, zs)]
        okay, kw = run(mon, rng, "galacticus", n, root, out, av, own, patch, policy)
        if okay:
            judge(mon, out, [H], zs, limit, lambda h, i: -1 if h.cen[i] else 0, **kw)
    mon.state("galacticus", which, n, len(zs), limit < 10)
