"""C26: the saved mean histories are the averages over the galaxies of each mass bin."""

import os

import h5py
import numpy as np
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_halopop

from .. import core, ranks, scripts

ranks.install_stubs()  # before the loaders look for umachine_pyio

from diffstar import DiffstarParams, calc_sfh_galpop  # noqa: E402
from diffstar.data_loaders import load_galacticus_sfh as lgs  # noqa: E402
from diffstar.data_loaders import load_smah_data as ls  # noqa: E402
from diffstar.defaults import FB, LGT0  # noqa: E402

from .. import refmodel as R  # noqa: E402
from .c23 import Scratch, digest  # noqa: E402
from .c24 import GAL, MBINS, SIMS, T_TNG, TT, Halos  # noqa: E402

CASES = core.Registry()
RULE = (
    "Each execution writes a synthetic simulation below a scratch directory (data, halo fits, galaxy fits with failures, in subvolumes or chunks), runs the "
    "real script for one simulation name (or for all of them) and compares the saved file, bin by bin and time by time, with one direct average. "
    "Classes are (simulation, subvolumes, bins with and without galaxies)."
)
ASSUMPTIONS = [
    "no galaxy lies within 1e-3 dex of a mass-bin edge",
    "every chunk and subvolume has at least one fitted galaxy; TNG has 20 chunks and UniverseMachine 117 times, as the script assumes",
    "matplotlib is present; astropy and umachine_pyio are stand-ins",
]
BINS = np.arange(11.25, 14.5, 0.50)
FN = {
    "smdpl": "diffstar_quality_smdpl.h5",
    "smdpl_dr1": "diffstar_quality_smdpl_dr1.h5",
    "tng": "diffstar_quality_tng.h5",
    "galcus_insitu": "diffstar_quality_galcus_insitu.h5",
    "galcus_inplusexsitu": "diffstar_quality_galcus_inplusexsitu.h5",
}
DRN_TNG = ("/lcrc/project/halotools/alarcon/results/tng_diffmah_tpeak/", "/lcrc/project/halotools/alarcon/results/mgash/TNG/")
GAL_SFH = "/lcrc/project/halotools/alarcon/results/mgash/Galacticus/"
COLS = ("mstar_data_mean", "mstar_fit_mean", "sfr_data_mean", "sfr_fit_mean")


class Gals:
    """galaxies: measured histories on the simulation's times, and fits"""

    def __init__(self, rng, n, t):
        for _ in range(20):
            self.H = H = Halos(rng, n, [TT[-1]], MBINS["smdpl"])
            self.lgm = rng.uniform(11.0, 14.6, n)
            if np.abs(self.lgm[:, None] - BINS).min() > 1e-3 and np.abs(H.lm[:, :1] - BINS).min() > 1e-3:
                break
        self.t, self.n = t, n
        s = 10 ** (rng.uniform(-3, 2, n)[:, None] + rng.normal(0, 0.3, (n, len(t))))
        quiet = rng.random(n) < 0.3  # far below the floor in specific rate
        s[quiet, len(t) // 2 :] *= 1e-9
        s[quiet & (rng.random(n) < 0.4), (2 * len(t)) // 3 :] = 0  # not forming stars any more, as in TNG
        s[rng.random(s.shape) < 0.02] = 0
        born = rng.integers(0, max(2, len(t) // 4), n) * (rng.random(n) < 0.4)
        s[np.arange(len(t)) < born[:, None]] = 0
        one = rng.random(n) < 0.5
        s[one, -1] = 1.0  # log10 is 0 here; no sentinel may swallow it
        s[(rng.random(s.shape) < 0.1) & one[:, None]] = 1.0
        self.sfr = s

    def pick(self, k):
        g = object.__new__(Gals)
        g.__dict__.update(self.__dict__)
        g.keep = k
        return g

    def rows(self, lgm=None):
        """(mass for the binning, four histories) of the fitted galaxies"""
        H, u = self.H, self.H.use
        m = DEFAULT_MAH_PARAMS._make([x[u] for x in H.mah])
        sf, sm = (np.asarray(x, float) for x in calc_sfh_galpop(DiffstarParams(*[x[u] for x in H.par]), m, TT, lgt0=LGT0, fb=FB, return_smh=True))
        fs, fm = (np.array([10 ** np.interp(self.t, TT, np.log10(y)) for y in x]) for x in (sf, sm))
        d = self.sfr[u]
        dm = np.array([R.smh(self.t, x) for x in d])
        ds = np.where(dm > 0, np.maximum(d, 1e-12 * dm), d)
        ds = np.where(d > 0, ds, 0.0)
        return (self.lgm if lgm is None else lgm)[u], dm, fm, ds, np.maximum(fs, 1e-12 * fm)


def average(parts):
    lm, *h = (np.concatenate([p[i] for p in parts]) for i in range(5))
    out, n = np.full((4, len(BINS) - 1, h[0].shape[1]), np.nan), []
    for i in range(len(BINS) - 1):
        s = (lm > BINS[i]) & (lm < BINS[i + 1])
        n.append(int(s.sum()))
        if s.any():
            out[:, i] = [x[s].mean(0) for x in h]
    return out, n


def judge(mon, fn, t, parts, sim, /, **kw):
    want, n = average(parts)
    if not mon.ok(os.path.isfile(fn), "means:written", file=os.path.basename(fn), sim=sim, **kw):
        return
    with h5py.File(fn, "r") as h:
        D = {k: h[k][...] for k in h}
    mon.ok(set(D) == {"tarr", "mpeak_bins", "mpeak_binsc", *COLS}, "means:columns", got=sorted(D), sim=sim, **kw)
    mon.close(D["tarr"], t, 1e-6 * t, "means:times", sim=sim, **kw)
    mon.close(D["mpeak_bins"], BINS, 1e-9, "means:bins", sim=sim, **kw)
    mon.close(D["mpeak_binsc"], (BINS[1:] + BINS[:-1]) / 2, 1e-9, "means:bins", sim=sim, **kw)
    for k, w in zip(COLS, want):
        g = D[k]
        if not mon.ok(g.shape == w.shape, "means:shape", got=list(g.shape), want=list(w.shape), sim=sim, **kw):
            continue
        for i, c in enumerate(n):
            if c:
                mon.close(g[i], w[i], (2e-4 if not mon.x64 else 1e-4) * w[i] + 1e-30, "means:" + k, bin=i, galaxies=c, sim=sim, **kw)
            else:
                mon.ok(~np.isfinite(g[i]) | (g[i] == 0), "means:empty-bin", bin=i, sim=sim, **kw)
    mon.state(sim, len(parts), sum(c > 0 for c in n), min(max(n), 20))


def put(root, sim, rng):
    """write the inputs of one simulation; returns (times, rows per part)"""
    if sim == "tng":
        n, t = int(rng.integers(40, 70)), np.linspace(0.4, 13.8, int(rng.integers(5, 30)))
        g = Gals(rng, n, t)
        for c in np.array_split(np.arange(n), 20):
            g.H.force(c[0], True)
        drn, (dm, ds) = root + T_TNG[0], (root + x for x in DRN_TNG)
        for d in (drn, dm, ds):
            os.makedirs(d, exist_ok=True)
        x = np.zeros(n, dtype=[("mpeak", "f8"), ("sfh", "f8", (len(t),)), ("mpeakh", "f8", (len(t),)), ("cen1_sat0", "i4", (len(t),))])
        x["sfh"], x["mpeakh"] = g.sfr, (g.lgm + np.log10(ls.H_TNG))[:, None] - 0.3 * np.linspace(1, 0, len(t))
        np.save(os.path.join(drn, "tng_diffmah.npy"), x)
        np.save(os.path.join(drn, "tng_cosmic_time.npy"), t)
        g.H.write_mah(os.path.join(dm, "diffmah_tng_fits.hdf5"))
        g.H.write_sfh(os.path.join(ds, "diffstar_tng_fits.hdf5"))
        return t, [g.rows()]
    if sim.startswith("smdpl"):
        name = "DR1" if sim == "smdpl_dr1" else "DR1_nomerging"
        din, dm, ds = (root + d for d in SIMS[name])
        for d in (din, dm, ds):
            os.makedirs(d, exist_ok=True)
        t = np.linspace(0.4, ls.T0_SMDPL, 117)
        np.savetxt(os.path.join(din, "smdpl_cosmic_time.txt"), t, fmt="%.18e")
        some = np.sort(rng.choice(np.arange(0, 576), int(rng.integers(1, 5)), replace=False)) if name == "DR1" else np.arange(576)
        if name == "DR1":
            some[0] = rng.integers(0, min(10, some[-1] + 1))
            some = np.unique(some)
        rows, made = [], {}
        for v in some:
            k = int(rng.integers(3)) if name != "DR1" else int(v)
            if k not in made:
                g = Gals(rng, int(rng.integers(3, 9)), t)
                x = np.zeros(g.n, dtype=[("halo_id", "i8"), ("upid", "i8"), ("sfr_history_main_prog", "f8", (117,)), ("sfr_history_all_prog", "f8", (117,)), ("mpeak_history_main_prog", "f8", (117,))])
                x["halo_id"], x["upid"] = g.H.id, -1
                a, b = ("sfr_history_all_prog", "sfr_history_main_prog") if name == "DR1" else ("sfr_history_main_prog", "sfr_history_all_prog")
                x[a], x[b] = g.sfr, g.sfr * 10 ** rng.uniform(0.5, 1, g.sfr.shape)
                x["mpeak_history_main_prog"] = 10 ** (g.lgm[:, None] - 0.3 * np.linspace(1, 0, 117))
                p = os.path.join(root, "%s-%d" % (sim, k))
                np.save(p + "_mock.npy", x)
                g.H.write_sfh(p + "_sfh"), g.H.write_mah(p + "_mah")
                made[k] = (p, g.rows())
            p, r = made[k]
            os.symlink(p + "_mock.npy", os.path.join(din, "mock_%d.npy" % v))
            os.symlink(p + "_sfh", os.path.join(ds, "diffstar_fits_subvol_%d.hdf5" % v))
            os.symlink(p + "_mah", os.path.join(dm, ("diffmah_fits_subvol_%d.hdf5" if name == "DR1" else "subvol_%d_diffmah_fits.h5") % v))
            rows.append(r)
        return t, rows
    raise ValueError(sim)


def put_galacticus(root, rng):
    n, t = int(rng.integers(5, 40)), np.linspace(0.5, float(rng.uniform(13.2, 13.8)), int(rng.integers(5, 20)))
    d, s = root + GAL, root + GAL_SFH
    for x in (d, s):
        os.makedirs(x, exist_ok=True)
    a, b = Gals(rng, n, t), Gals(rng, n, t)
    b.H.mah, b.H.kind = a.H.mah, np.where(a.H.kind == "nomah", "nomah", b.H.kind)
    a.H.force(0, True), b.H.force(0, True)
    a.H.write_mah(os.path.join(d, lgs.BN_DIFFMAH))
    nomah = a.H.kind == "nomah"
    if nomah.any():
        b.H.kind = np.where(nomah, "nomah", np.where(b.H.kind == "nomah", "failed", b.H.kind))
        b.H.use = b.H.kind == "ok"
    else:
        b.H.kind = np.where(b.H.kind == "nomah", "failed", b.H.kind)
        b.H.use = b.H.kind == "ok"
    a.H.write_sfh(os.path.join(s, lgs.BN_DIFFSTAR_IN_SITU)), b.H.write_sfh(os.path.join(s, lgs.BN_DIFFSTAR_IN_PLUS_EX_SITU))
    # the fits that lie beside the data are of another run and must not be used
    for f in (lgs.BN_DIFFSTAR_IN_SITU, lgs.BN_DIFFSTAR_IN_PLUS_EX_SITU):
        Halos(rng, n, [TT[-1]], MBINS["smdpl"]).write_sfh(os.path.join(d, f))
    for k in ("in_situ", "tot"):
        for c in ("bulge", "disk"):
            np.save(os.path.join(d, "delta_mstar_%s_%s.npy" % (k, c)), 10 ** rng.uniform(6, 9, (n, len(t))))
    np.save(os.path.join(d, "tarr_bulge.npy"), t), np.save(os.path.join(d, "tarr_disk.npy"), t)
    with h5py.File(os.path.join(d, lgs.BN_GALCUS), "w") as f:
        f["Outputs/Output1/nodeData/nodeIsIsolated"] = a.H.cen.astype("i8")
    x = lgs.load_galacticus_sfh_target_data(d)
    a.sfr, b.sfr = np.asarray(x["sfh_in_situ"], float), np.asarray(x["sfh_tot"], float)
    t = a.t = b.t = np.asarray(x["tarr"], float)
    lm = np.asarray(mah_halopop(DEFAULT_MAH_PARAMS._make(a.H.mah), np.array([1.0, t[-1]]), LGT0)[1], float)[:, -1]
    near = np.abs(lm[:, None] - BINS).min() < 1e-3
    return t, {"galcus_insitu": [a.rows(lm)], "galcus_inplusexsitu": [b.rows(lm)]}, near


def execute(mon, rng, sims, arg):
    with Scratch() as root:
        want = {}
        for s in sims:
            if s.startswith("galcus"):
                if s in want:
                    continue
                for _ in range(20):
                    t, r, near = put_galacticus(root, rng)
                    if not near:
                        break
                want.update({k: (t, v) for k, v in r.items() if k in sims})
            else:
                want[s] = put(root, s, rng)
        out = os.path.join(root, ("out", "out dir/x")[int(rng.integers(2))])
        os.makedirs(out)
        open(os.path.join(out, "notes.txt"), "w").write("of the user\n")
        before = digest(out)
        real = lgs.load_galacticus_diffstar_data

        def load(drn, diffstar_drn=root + GAL, diffmah_drn=root + GAL):
            return real(drn, diffstar_drn=diffstar_drn, diffmah_drn=diffmah_drn)

        with scripts.replaced(lgs, load_galacticus_diffstar_data=load), np.errstate(all="ignore"):
            scripts.run(os.path.join(scripts.DRN, "calculate_quality_diffstar_fits_mgash.py"), ["-sim_name", arg, "-outdir", out], root)
        after = digest(out)
        mon.ok(set(after) == set(before) | {FN[s] for s in want}, "means:files", got=sorted(after), sim=arg)
        mon.ok(after.get("notes.txt") == before["notes.txt"], "means:others-untouched", sim=arg)
        for s, (t, parts) in want.items():
            judge(mon, os.path.join(out, FN[s]), t, parts, s)
        mon.sample(sim=arg, parts={s: len(p) for s, (t, p) in want.items()})


@CASES(quick=10, thorough=100, modes=("f32",))
def one(mon, rng):
    s = ("tng", "smdpl_dr1", "galcus_insitu", "galcus_inplusexsitu", "smdpl_dr1")[mon.rep % 5]
    execute(mon, rng, [s], s)


@CASES(quick=2, thorough=6, modes=("f32",))
def everything(mon, rng):
    if mon.rep % 2:
        execute(mon, rng, ["smdpl"], "smdpl")
    else:
        execute(mon, rng, list(FN), "all")
