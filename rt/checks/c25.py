"""C25: the population fit sees exactly the measured targets and saves the best model it visited."""

import os

import h5py
import numpy as np
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_halopop
from jax import numpy as jnp

from diffstar.defaults import FB, LGT0
from diffstar.diffstarpop.kernels import params as fitted
from diffstar.diffstarpop.kernels.defaults_mgash import DEFAULT_DIFFSTARPOP_U_PARAMS, get_bounded_diffstarpop_params
from diffstar.diffstarpop.loss_kernels import mstar_ssfr_loss_mgash_anyz as lk

from .. import core, gen, scripts
from .c23 import Scratch

CASES = core.Registry()
RULE = (
    "Each execution writes a synthetic set of measurement files, runs the real assembly functions or the real fitting or data-saving script on them, "
    "and compares every halo drawn, weight and target with the files, or the saved parameters with the log of every loss evaluation. "
    "Classes are (entry point, number of halos, sparse bins seen, loss type, injected fault)."
)
ASSUMPTIONS = [
    "every redshift has at least one bin with 50 sampled halos of the type being fitted",
    "in most executions of the fitting script the loss is a stand-in that logs its arguments and injects not-a-number answers at chosen steps",
    "a loss evaluation whose gradient is not finite has a worse loss than the best one",
]
IDS = np.array([8, 10, 13, 16, 19])
HELPERS = "fit_get_loss_helpers_mgash"
PLOT = 10_000


class Files:
    """the three files a measurement run leaves"""

    def __init__(self, rng, nz=None, nm=None, gaps=True):
        nz = nz or int(rng.integers(1, 4))
        nm = nm or int(rng.integers(2, 7))
        self.nz, self.nm = nz, nm
        self.z = np.sort(rng.uniform(0, 3, nz))
        self.age = np.sort(rng.uniform(2, 13.7, nz))[::-1].copy()
        self.mbins = np.linspace(11, rng.uniform(13, 15), nm + 1)
        self.sbins, self.qbins = np.linspace(7, 13, int(rng.integers(21, 27)) + 0), np.linspace(-13, -8, int(rng.integers(5, 30)))
        ns, nq = len(self.sbins) - 1, len(self.qbins) - 1
        nc = rng.choice([0, 3, 49, 50, 51, 75, 160], (nz, nm)) if gaps else rng.integers(50, 120, (nz, nm))
        nt = rng.choice([0, 1, 49, 50, 90], (nz, nm)) if gaps else rng.integers(50, 120, (nz, nm))
        nc[:, rng.integers(nm)], nt[:, rng.integers(nm)] = rng.integers(50, 160), rng.integers(50, 90)
        self.nc, self.nt = nc, nt
        tid = np.repeat(np.arange(nz * nm), (nc + nt).ravel())
        n = len(tid)
        upid = np.concatenate([np.r_[np.full(c, -1), rng.integers(0, 2**40, s)] for c, s in zip(nc.ravel(), nt.ravel())])
        o = rng.permutation(n)
        self.tobs, self.lgm = (tid // nm)[o], (tid % nm)[o]
        self.upid = upid[o].astype(float)
        m, _ = gen.halo(rng, n, None, 13.8, strata=("uniform", "default"))
        m = np.array([np.float32(x) for x in m], float)
        m[0] = np.float32(rng.uniform(10, 15, n)) + np.float32(1e-3) * np.arange(n)  # every halo is recognisable
        m[4] = 13.8 * rng.uniform(0.3, 1.4, n)
        self.mah, self.n = m, n
        pos = lambda *s: rng.gamma(1.0, 1.0, s) * 10.0 ** rng.integers(-2, 4, s[:2] + (1,) * (len(s) - 2))
        self.D = dict(
            counts=pos(nz, nm), counts_cen=pos(nz, nm), counts_sat=pos(nz, nm), hist=pos(nz, nm), smhm=rng.normal(10, 1, (nz, nm)), smhm_diff=rng.normal(10, 1, (nz, nm))
        )
        self.D["counts_diff"] = self.D["hist_diff"] = self.D["counts"]
        c, s = pos(nz, nm, ns, nq), pos(nz, nm, ns, nq)
        c[rng.random((nz, nm, ns)) < 0.2] = 0
        s[rng.random((nz, nm, ns)) < 0.3] = 0
        c *= np.where(rng.random(c.shape) < 0.05, -1e-9, 1)  # rounding of a smooth histogram
        if rng.random() < 0.5:
            c[rng.integers(nz), rng.integers(nm)] = 0
            s[rng.integers(nz), rng.integers(nm)] = 0
        if rng.random() < 0.5:  # no galaxy of a target mass at this redshift
            c[rng.integers(nz), :, IDS[rng.integers(5)]] = 0
            s[rng.integers(nz), :, IDS[rng.integers(5)]] = 0
        self.M = dict(mstar_wcounts=pos(nz, nm, ns), mstar_counts=pos(nz, nm, ns), mstar_ssfr_wcounts_cent=c, mstar_ssfr_wcounts_sat=s)

    def write(self, drn):
        os.makedirs(drn, exist_ok=True)
        common = dict(redshift_targets=self.z, age_targets=self.age, logmh_bins=self.mbins)
        n = self.n
        samples = dict(
            logmh_id=self.lgm, logmh_val=0.5 * (self.mbins[1:] + self.mbins[:-1])[self.lgm], mah_params_samp=self.mah, ms_params_samp=np.zeros((4, n)),
            q_params_samp=np.zeros((4, n)), upid_samp=self.upid, tobs_id=self.tobs, tobs_val=self.age[self.tobs], redshift_val=self.z[self.tobs],
        )
        for fn, d in (
            ("smdpl_smhm.h5", {**self.D, **common}),
            ("smdpl_smhm_samples_haloes.h5", samples),
            ("smdpl_mstar_ssfr.h5", {**self.M, **common, "logmstar_bins_pdf": self.sbins, "logssfr_bins_pdf": self.qbins}),
        ):
            with h5py.File(os.path.join(drn, fn), "w") as h:
                for k, v in d.items():
                    h[k] = v

    def type(self, kind):
        return {"all": np.ones(self.n, bool), "cen": self.upid == -1, "sat": self.upid != -1}[kind]

    def cells(self, kind, least):
        t = self.type(kind)
        return [(i, j, np.flatnonzero(t & (self.tobs == i) & (self.lgm == j))) for i in range(self.nz) for j in range(self.nm) if (t & (self.tobs == i) & (self.lgm == j)).sum() >= least]


def draws(mon, F, cells, mah, nhalos, pulls, /, **kw):
    """every drawn halo belongs to its bin, none twice unless there are too few"""
    ok = True
    for (i, j, members), m in zip(cells, mah):
        k = np.searchsorted(F.key, m[0])
        k = F.order[np.clip(k, 0, F.n - 1)]
        ok &= mon.same(m, F.mah[:, k], "draw:a-sampled-halo", cell=[i, j], **kw)
        ok &= mon.ok(np.isin(k, members), "draw:of-its-bin-and-type", cell=[i, j], **kw)
        if len(members) >= nhalos:
            mon.ok(len(set(k.tolist())) == nhalos, "draw:no-halo-twice", cell=[i, j], members=len(members), **kw)
        if ok and len(members) > nhalos or nhalos > 3 * len(members):
            pulls.append((np.searchsorted(members, k).mean() - (len(members) - 1) / 2) / (np.sqrt((len(members) ** 2 - 1) / 12 / nhalos)))
    return ok


def judge(mon, F, data, what, nhalos, pulls, lgt0=LGT0, fb=FB, /, **kw):
    """one set of assembled data against the files"""
    kind, ssfr = {"mstar": ("all", 0), "mstar_cen": ("cen", 0), "mstar_sat": ("sat", 0), "ssfr_cen": ("cen", 1), "ssfr_sat": ("sat", 1), "smhm": ("all", 2)}[what]
    kw = dict(kw, what=what, nhalos=nhalos)
    cells = F.cells(kind, nhalos if ssfr == 2 else 50)
    nb = len(cells)
    names = ["mah", "logmp0", "upid", "lgmu", "logmhost", "gyr", "key", "tobs", "lgt0", "fb"]
    if ssfr == 2:
        names = ["mah", "logmp0", "lgmu", "logmhost", "gyr", "key", "tobs", "target"]
    elif ssfr:
        names += ["lo", "hi", "sbins", "qbins", "weight", "indx", "ids", "target"]
    else:
        names += ["sbins", "target"]
    if not mon.ok(len(data) == len(names), "data:items", got=len(data), want=len(names), **kw):
        return
    d = dict(zip(names, (np.asarray(x) for x in data)))
    if not mon.ok(d["mah"].shape == (nb, 5, nhalos), "data:one-row-per-populated-bin", got=list(d["mah"].shape), want=[nb, 5, nhalos], **kw):
        return
    mon.same(d["tobs"], F.age[[c[0] for c in cells]], "data:age-of-the-bin", **kw)
    if draws(mon, F, cells, d["mah"], nhalos, pulls, **kw) and "upid" in d:
        k = F.order[np.searchsorted(F.key, d["mah"][:, 0])]
        mon.same(d["upid"], F.upid[k], "draw:own-host", **kw)
    want = mah_halopop(DEFAULT_MAH_PARAMS._make(np.moveaxis(d["mah"], 1, 0).reshape(5, -1)), np.array([1.0, 10**lgt0]), lgt0)[1]
    mon.close(d["logmp0"], np.asarray(want)[:, -1].reshape(nb, nhalos), 2e-4, "draw:own-present-day-mass", **kw)
    for k, v in (("lgmu", -1.0), ("logmhost", 13.0), ("gyr", -99.0)):
        mon.same(d[k], np.full((nb, nhalos), v), "data:no-infall", which=k, **kw)
    mon.ok(d["key"].shape == (nb, 2) and len({tuple(x) for x in d["key"].tolist()}) == nb, "data:own-random-key", shape=list(d["key"].shape), **kw)
    if "fb" in d:
        mon.close([d["lgt0"], d["fb"]], [lgt0, fb], 0, "data:cosmology", **kw)
        mon.same(d["sbins"], F.sbins, "data:bins", **kw)
    if ssfr == 2:
        mon.same(d["target"], F.D["smhm"][[c[0] for c in cells], [c[1] for c in cells]], "target:relation", **kw)
        return
    if not ssfr:
        src = {"all": F.M["mstar_wcounts"], "cen": F.M["mstar_ssfr_wcounts_cent"].sum(3), "sat": F.M["mstar_ssfr_wcounts_sat"].sum(3)}[kind]
        with np.errstate(invalid="ignore"):
            want = np.array([src[i, j] / src[i, j].sum() for i, j, _ in cells])
        fin = np.isfinite(want).all(1)
        mon.close(d["target"][fin], want[fin], 1e-12, "target:stellar-mass-distribution", **kw)
        return
    src = np.clip(F.M["mstar_ssfr_wcounts_cent" if kind == "cen" else "mstar_ssfr_wcounts_sat"], 0, None)
    cnt = F.D["counts_cen" if kind == "cen" else "counts_sat"]
    want = np.zeros((F.nz, 5, len(F.qbins) - 1))
    for i in range(F.nz):
        w = cnt[i] / cnt[i].sum()
        mix = np.zeros(src.shape[2:])
        for j in range(F.nm):
            if src[i, j].sum() > 0:
                mix += w[j] * src[i, j] / src[i, j].sum()
        for a, b in enumerate(IDS):
            if mix[b].sum() > 0:
                want[i, a] = mix[b] / mix[b].sum()
    mon.close(d["target"], want, 1e-10, "target:ssfr-distribution", **kw)
    mon.same(d["ids"], IDS, "target:stellar-masses", **kw)
    mon.same(d["qbins"], F.qbins, "data:bins", **kw)
    lo = np.array([[a, b] for a in F.sbins[:-1] for b in F.qbins[:-1]])
    hi = np.array([[a, b] for a in F.sbins[1:] for b in F.qbins[1:]])
    mon.same(d["lo"], lo, "data:cell-edges", **kw), mon.same(d["hi"], hi, "data:cell-edges", **kw)
    # which rows make up a redshift, and with which weight
    if not mon.ok(d["indx"].shape == d["weight"].shape and d["indx"].shape[0] == F.nz, "weights:shape", got=[list(d["indx"].shape), list(d["weight"].shape)], **kw):
        return
    W = np.zeros((F.nz, nb))
    for i in range(F.nz):
        np.add.at(W[i], d["indx"][i], d["weight"][i])
    want = np.zeros((F.nz, nb))
    for r, (i, j, _) in enumerate(cells):
        want[i, r] = cnt[i, j] / cnt[i].sum()
    mon.close(W, want, 1e-6 * want, "weights:abundance-of-each-bin", **kw)


def recognise(F):
    F.order = np.argsort(F.mah[0])
    F.key = F.mah[0][F.order]
    if np.diff(F.key).min() <= 0:
        raise RuntimeError("halos not distinct")


def distinct(rng, **kw):
    for _ in range(20):
        F = Files(rng, **kw)
        try:
            recognise(F)
            return F
        except RuntimeError:
            pass
    raise RuntimeError("no files")


def unbiased(mon, pulls, /, **kw):
    """draws cover their bin evenly: six standard deviations of the mean position"""
    if pulls:
        p = np.array(pulls)
        mon.ok(abs(p.mean()) < 6.5 / np.sqrt(len(p)), "draw:evenly-over-the-bin", pull=float(p.mean() * np.sqrt(len(p))), bins=len(p), **kw)


GETTERS = {
    "smhm": "get_loss_data_smhm",
    "mstar": "get_loss_data_pdfs_mstar",
    "mstar_cen": "get_loss_data_pdfs_mstar_cen",
    "mstar_sat": "get_loss_data_pdfs_mstar_sat",
    "ssfr_cen": "get_loss_data_pdfs_ssfr_central",
    "ssfr_sat": "get_loss_data_pdfs_ssfr_satellite",
}


@CASES(quick=12, thorough=180, modes=("f32", "x64"))
def assembly(mon, rng):
    what = list(GETTERS)[mon.rep % 6]
    F = distinct(rng)
    nhalos = int(rng.choice([10, 50, 100, 7]))
    with Scratch() as root:
        drn = os.path.join(root, "in dir")
        F.write(drn)
        mod = scripts.module(HELPERS, root)
        np.random.seed(int(rng.integers(2**32)))
        other = rng.random() < 0.4
        lgt0, fb = (float(np.log10(rng.uniform(13.2, 14))), float(rng.uniform(0.1, 0.2))) if other else (LGT0, FB)
        with scripts.quiet():
            arg = drn + "/" if rng.random() < 0.5 else drn
            data, plot = getattr(mod, GETTERS[what])(arg, nhalos, *((lgt0, fb) if other else ()))
        pulls = []
        judge(mon, F, data, what, nhalos, pulls, lgt0, fb)
        if what != "smhm":
            judge(mon, F, plot[-1], what, PLOT, pulls, lgt0, fb, plot=True)
        unbiased(mon, pulls, what=what)
    mon.state(what, nhalos, "sparse" if len(F.cells("all", 50)) < F.nz * F.nm else "full", "cosmology" if other else "default")
    mon.sample(what=what, halos=F.n, bins=[F.nz, F.nm], nhalos=nhalos)


@CASES(quick=2, thorough=16, modes=("f32", "x64"))
def saving(mon, rng):
    """the script that saves the assembled data, and its reader"""
    F = distinct(rng, gaps=mon.rep % 2 == 0)
    with Scratch() as root:
        src = os.path.join(scripts.DRN, "save_loss_data.py")
        F.write(os.path.join(root, "Users/alarcon/Documents/diffmah_data/mgash/smdpl_dr1_nomerging_pdf_target_data"))
        g = scripts.run(src, [], root, seed=int(rng.integers(2**32)))
        pulls = []
        for n in (10, 100):
            fn = os.path.join(root, "loss_kernels_testing_data_%dhalos.h5" % n)
            if not mon.ok(os.path.isfile(fn), "save:file", file=fn):
                continue
            got = g["load_loss_data_h5"](fn)
            for d, w in zip(got, ("mstar", "ssfr_cen", "ssfr_sat")):
                judge(mon, F, d, w, n, pulls, saved=True)
            if n == 100:
                for d, k in zip(got, ("loss_data_mstar", "loss_data_ssfr", "loss_data_ssfr_sat")):
                    for a, b in zip(d, g[k]):
                        mon.same(np.asarray(a), np.asarray(b), "save:unaltered", which=k)
        # a ragged item comes back as the list it was
        m, c, s = (list(g[k]) for k in ("loss_data_mstar", "loss_data_ssfr", "loss_data_ssfr_sat"))
        rag = [rng.normal(0, 1, int(rng.integers(0, 9))) for _ in range(int(rng.integers(2, 130)))]
        c[14] = rag if rng.random() < 0.5 else np.array([*rag, None], dtype=object)[:-1]
        s[14] = [np.float64(x) for x in rng.normal(0, 1, 4)]
        s[15] = [jnp.arange(3), jnp.arange(3) + 4]
        fn = os.path.join(root, "r.h5")
        with scripts.quiet():
            g["save_loss_data_h5"](fn, m, c, s)
        r = g["load_loss_data_h5"](fn)
        mon.ok(len(r[1][14]) == len(rag), "save:ragged-length")
        for a, b in zip(r[1][14], rag):
            mon.same(a, b, "save:ragged-item")
        mon.same(r[2][14], s[14], "save:equal-shapes"), mon.same(r[2][15], np.asarray(s[15]), "save:equal-shapes")
        for bad in (m[:-1], m + [0]):
            try:
                with scripts.quiet():
                    g["save_loss_data_h5"](os.path.join(root, "bad.h5"), bad, c, s)
                mon.fail("save:refuses-wrong-items", n=len(bad))
            except ValueError:
                mon.ok(True, "save:refuses-wrong-items")
        unbiased(mon, pulls)
    mon.state("saving", mon.rep % 2)


KERNELS = {
    "mstar": ("loss_mstar_kern_tobs_grad_wrapper", ("mstar",)),
    "mstar_ssfr_cen": ("loss_combined_wrapper", ("mstar", "ssfr_cen")),
    "mstar_ssfr_cen_sat": ("loss_combined_3loss_wrapper", ("mstar", "ssfr_cen", "ssfr_sat")),
}
FAULTS = ("none", "loss-once", "loss-often", "gradient-late", "gradient-first", "uphill", "plateau", "extra-best", "zigzag")


class Loss:
    """logs every evaluation; a bowl with a hostile surface, or the real function"""

    def __init__(self, rng, fault, real=None):
        self.rng, self.fault, self.real, self.log = rng, fault, real, []
        n = len(DEFAULT_DIFFSTARPOP_U_PARAMS)
        self.a = rng.uniform(0.1, 2, n)
        self.c = rng.normal(0, 1, n)
        self.at = set(rng.integers(2, 9, 2).tolist()) if fault == "loss-once" else set(range(int(rng.integers(3, 6)), 12)) if fault == "loss-often" else {int(rng.integers(3, 9))}

    def __call__(self, p, *data):
        if self.real is not None:
            loss, g = self.real(p, *data)
        else:
            p_ = np.asarray(p, float)
            if not self.log:
                self.c += p_
            k = len(self.log)
            loss = float((self.a * (p_ - self.c) ** 2).sum())
            g = 2 * self.a * (p_ - self.c)
            if self.fault == "uphill":  # the surface rises along the path: an early point is the best
                loss = 1.0 + 0.1 * k if k > 1 else 1.0 + (k > 0) * 0.01
                if k == 3:
                    loss = 0.5
            if self.fault == "plateau":
                loss = 1.0 if k < 4 else 0.25
            if self.fault == "zigzag":  # improves on its predecessor often, on the best never after the first few
                loss = 0.5 if k == 3 else 0.7 + 0.2 * (k % 2)
            if self.fault == "extra-best":  # the step taken after an unusable loss is the best of the run
                loss = np.nan if k in self.at else 1e-3 if k - 1 in self.at else loss + 1.0
            if k in self.at and self.fault.startswith("loss"):
                loss = np.nan if k % 2 else np.inf
            if (k == 1 and self.fault == "gradient-first") or (k in self.at and self.fault == "gradient-late"):
                g, loss = g.copy(), loss + 1e3
                g[int(self.rng.integers(len(g)))] = np.nan
            if k == 0 and self.fault == "gradient-first":
                loss += 1e3
            loss, g = jnp.asarray(loss, "f4"), jnp.asarray(g)
        self.log.append((np.array(p, float), float(loss), bool(np.isfinite(np.asarray(g)).all()), data))
        return loss, g


def start_of(rng, root):
    """(argument, parameters the fit must start from)"""
    k = int(rng.integers(3))
    if k == 0:
        return [], np.array(DEFAULT_DIFFSTARPOP_U_PARAMS, float)
    if k == 1:
        t = fitted.DiffstarPop_UParams_Diffstarfits_mgash
        name = list(t)[int(rng.integers(len(t)))]
        return ["--params_path", "diffstarfits_" + name], np.array(t[name], float)
    p = np.array(DEFAULT_DIFFSTARPOP_U_PARAMS, float) + rng.normal(0, 0.1, len(DEFAULT_DIFFSTARPOP_U_PARAMS))
    fn = os.path.join(root, "start.npz")
    np.savez(fn, diffstarpop_u_params=p, diffstarpop_params=p * np.nan)
    return ["--params_path", fn], p


def run_fit(mon, rng, loss_type, fault, nstep, nhalos, real=False):
    F = distinct(rng, **(dict(nz=2, nm=2, gaps=False) if real else {}))
    kern, parts = KERNELS[loss_type]
    with Scratch() as root:
        drn, out = os.path.join(root, "in"), os.path.join(root, "out dir")
        F.write(drn), os.makedirs(out)
        extra, first = start_of(rng, root)
        name = ["-outname", "fit.v1"] if rng.random() < 0.5 else []
        L = Loss(rng, fault, getattr(lk, kern) if real else None)

        def wrong(*a):
            raise RuntimeError("another loss was used")

        kernels = {k: wrong for k, _ in KERNELS.values()}
        kernels[kern] = L
        av = ["-indir", drn, "-outdir", out, "-nhalos", nhalos, "-nstep", nstep, "-loss_type", loss_type, "--print_loss", int(rng.integers(1, 9)), *name, *extra]
        kw = dict(loss_type=loss_type, fault=fault, nstep=nstep)
        with scripts.replaced(lk, **kernels):
            scripts.run(os.path.join(scripts.DRN, "fit_mstar_ssfr_pdfs_mgash.py"), av, root, seed=int(rng.integers(2**32)))
        want = ["fit.v1.npz" if name else "bestfit_diffstarpop_params.npz"]
        if not mon.ok(os.listdir(out) == want, "fit:output", got=os.listdir(out), want=want, **kw):
            return
        with np.load(os.path.join(out, want[0])) as r:
            got = {k: r[k] for k in r}
        pulls = []
        for _, _, _, data in L.log[:1]:
            if mon.ok(len(data) == len(parts), "fit:targets", got=len(data), want=len(parts), **kw):
                for d, w in zip(data, parts):
                    judge(mon, F, d, w, nhalos, pulls, **kw)
        mon.ok(all(x is y for e in L.log for x, y in zip(e[3], L.log[0][3])), "fit:same-targets-throughout", **kw)
        mon.close(L.log[0][0], first, 1e-6 * (1 + np.abs(first)), "fit:starts-where-asked", start=extra, **kw)
        good = [(l, i) for i, (p, l, g, _) in enumerate(L.log) if np.isfinite(l) and g and np.isfinite(p).all()]
        if fault == "gradient-first":
            good, _ = [(L.log[0][1], 0)], mon.ok(len(L.log) <= 3, "fit:stops-without-gradient", n=len(L.log), **kw)
        best = min(l for l, _ in good)
        cand = [L.log[i][0] for l, i in good if l <= best * (1 + 1e-6)]
        u = np.asarray(got["diffstarpop_u_params"], float)
        if mon.ok(u.shape == first.shape, "fit:saved-shape", **kw):
            mon.ok(any((np.abs(u - c) <= 2e-6 * (1 + np.abs(c))).all() for c in cand), "fit:saved-is-the-best-visited", best=best, evaluations=len(L.log), **kw)
            b = np.array(get_bounded_diffstarpop_params(DEFAULT_DIFFSTARPOP_U_PARAMS._make(u.astype("f4"))), float)
            mon.close(got["diffstarpop_params"], b, 1e-5 * (1 + np.abs(b)), "fit:bounded-counterpart", **kw)
        if fault in ("none", "uphill", "plateau", "zigzag"):
            mon.ok(len(L.log) == nstep + 1, "fit:number-of-steps", got=len(L.log), **kw)
        if fault == "none":
            mon.ok(best < L.log[0][1], "fit:improves", first=L.log[0][1], best=best, **kw)
        if real:
            k = min(good)[1]
            again = getattr(lk, kern)(jnp.asarray(u), *L.log[0][3])[0]
            mon.close(again, L.log[k][1], 1e-3 * abs(L.log[k][1]) + 1e-7, "fit:saved-has-that-loss", **kw)
        mon.state("fit", loss_type, fault, "real" if real else "stand-in", len(extra) and str(extra[1])[:12])


@CASES(quick=18, thorough=162, modes=("f32",))
def fitting(mon, rng):
    n = len(FAULTS)
    run_fit(mon, rng, list(KERNELS)[(mon.rep // n + mon.rep) % 3], FAULTS[mon.rep % n], int(rng.integers(10, 25)), int(rng.choice([10, 60])))


@CASES(quick=1, thorough=6, modes=("f32",))
def real_fit(mon, rng):
    run_fit(mon, rng, list(KERNELS)[mon.rep % 3], "none", 4, 8, real=True)
