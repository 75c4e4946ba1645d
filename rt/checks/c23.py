"""C23: parallel fitting runs record each galaxy exactly once, in catalogue order."""

import atexit
import hashlib
import os
import shutil
import tempfile
import zlib

import h5py
import numpy as np

import diffstar
from diffstar.data_loaders import load_galacticus_sfh as lgs
from diffstar.data_loaders import load_smah_data as ls
from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh

from .. import core, gen, ranks
from .. import refmodel as R

CASES = core.Registry()
RULE = (
    "Each execution writes a synthetic catalogue, runs the real script in 1..6 real processes under a coordinator that decides which rank "
    "continues at every MPI call, file operation and fit, and then checks the recorded fits and every file of the scratch directory. "
    "Classes are (script, ranks, schedule policy, catalogue shape, option) and the distinct event interleavings seen."
)
ASSUMPTIONS = [
    "the number of ranks does not exceed the number of galaxies",
    "MPI is a stand-in with real processes; a rank is preempted only at MPI calls, file operations and fits, where ranks can observe each other",
    "in most executions the fitter is a stand-in that records its arguments and answers at once; some executions run the real one",
    "catalogue values keep clear of the mass cuts by 0.01 dex",
]
SCRIPTS = {
    "gal": "galacticus_diffstar_fitter_script.py",
    "gal_mgash": "galacticus_diffstar_fitter_script_mgash.py",
    "tng": "history_fitting_script_TNG_mgash.py",
    "um": "diffstar_fitting_script_umachine.py",
    "um_mgash": "diffstar_fitting_script_umachine_mgash.py",
    "halos": "galacticus_analysis/galacticus_diffmah_fitter_script.py",
}
POLICIES = ("random", "priority", "rank0first", "rank0last", "robin")
PARAMS = ("lgmcrit", "lgy_at_mcrit", "indx_lo", "indx_hi", "lg_qt", "qlglgdt", "lg_drop", "lg_rejuv")
MCOLS = ("logm0", "logtc", "early_index", "late_index", "t_peak")
UM = {
    "DR1": (
        "/lcrc/project/halotools/UniverseMachine/SMDPL/sfh_binaries_dr1_bestfit/a_1.000000/",
        "/lcrc/project/halotools/UniverseMachine/SMDPL/sfh_binaries_dr1_bestfit/diffmah_tpeak_fits/",
        ("diffmah_fits_subvol_{}.hdf5",),
    ),
    "DR1_nomerging": (
        "/lcrc/project/galsampler/SMDPL/dr1_no_merging_upidh/sfh_binary_catalogs/a_1.000000/",
        "/lcrc/project/halotools/SMDPL/dr1_no_merging_upidh/diffmah_tpeak_fits/",
        ("{}_diffmah_fits.h5", "subvol_{:03d}_diffmah_fits.h5"),
    ),
}
_POOL = {}


def pool(n=6):
    """enough rank processes for n ranks; more than nine ranks happen in one case only"""
    k = 6 if n <= 6 else 12
    if k not in _POOL:
        _POOL[k] = ranks.Pool(k)
        atexit.register(_POOL[k].close)
    return _POOL[k]


class Cat:
    """a synthetic catalogue: histories, halos, and which of them can be fitted"""

    def __init__(self, rng, n, t, logmp0_min, t0, real=False, span=(0.1, 3.0)):
        nt = len(t)
        self.t, self.t0 = t, t0
        self.kind = rng.choice(["good", "nofit", "few", "lowhalo", "lowstar", "nan"], n, p=[0.5, 0.12, 0.12, 0.1, 0.1, 0.06])
        if rng.random() < 0.1:
            self.kind[:] = "nofit"
        if real:
            self.kind[:2], self.kind[2:] = "good", "nofit"
        m, _ = gen.halo(rng, n, None, t0, strata=("default", "uniform"))
        m = [np.array(x) for x in m]
        m[0] = np.where(self.kind == "lowhalo", logmp0_min - rng.uniform(0.1, 2, n), logmp0_min + rng.uniform(*span, n))
        m[4] = t0 * rng.uniform(1.0, 1.5, n)
        early = rng.random(n) < 0.2  # present-day mass differs from logm0
        m[4] = np.where(early, rng.uniform(0.4, 0.9, n) * t0, m[4])
        bad = (self.kind == "nofit") | (self.kind == "nan")
        self.loss = np.where(bad, -1.0, 10 ** rng.uniform(-6, 0, n))
        self.npts = np.where(self.kind == "few", rng.integers(0, 5, n), rng.integers(5, 100, n))
        fill = np.where(self.kind == "nan", np.nan, -1.0)
        self.halo = [np.where(bad, fill, x) for x in m]
        with np.errstate(invalid="ignore"):
            self.lgmp = np.array([float(np.ravel(R.lgmh([float(x[i]) for x in m], np.array([t0]), np.log10(t0)))[0]) for i in range(n)])
        self.logmp0_min = logmp0_min
        amp = 10 ** np.where(self.kind == "lowstar", rng.uniform(-4.5, -3.2, n), rng.uniform(-1, 2, n))
        s = amp[:, None] * 10 ** rng.normal(0, 0.2, (n, nt))
        self.sfh = s
        self.ids = np.arange(n)

    def ambiguous(self):
        return bool((np.abs(self.lgmp - self.logmp0_min) < 0.01).any())

    def fits(self, logm_star=None, use_min=True):
        f = (self.loss > 0) & (self.npts >= 5)
        if use_min:
            f &= self.lgmp > self.logmp0_min
        if logm_star is not None:
            f &= logm_star > 8.0
        return f

    def write_halos(self, fn):
        with h5py.File(fn, "w") as h:
            for k, v in zip(MCOLS, self.halo):
                h[k] = v
            h["loss"], h["n_points_per_fit"] = self.loss, self.npts


def digest(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out


def decoys(rng, out, own):
    """files of the user and of other jobs; leftovers of an earlier run under the same names"""
    names = ["results.dat", "tmp_notes.dat", "tmp_sfh_fits_rank_.dat", "old_tmp_sfh_fits_rank_0.dat", "tmp_sfh_fits_rank_0.dat.bak", "notes.hdf5", "subvol_900_tmp_sfh_fits_rank_0.dat", "a b.dat"]
    names = [n for n in names if rng.random() < 0.7]
    for n in names:
        with open(os.path.join(out, n), "w") as f:
            f.write("do not touch %s\n" % n)
    for n in own:
        if rng.random() < 0.3:
            with open(os.path.join(out, n), "w") as f:
                f.write("# stale\n77 1 2 3\n" * 5)


def lgmstar(t, s):
    return np.array([np.log10(R.smh(t, x)[-1]) for x in s])


def options(rng):
    o = {}
    if rng.random() < 0.6:
        o["fstar_tdelay"] = round(float(rng.uniform(0.3, 2.5)), 3)
    if rng.random() < 0.6:
        o["mass_fit_min"] = round(float(rng.uniform(6, 9.5)), 3)
    if rng.random() < 0.6:
        o["ssfrh_floor"] = float("%.3e" % 10 ** rng.uniform(-14, -10))
    return o


def argv_of(o, rng):
    out = []
    for i in rng.permutation(len(o)):
        k = list(o)[i]
        out += ["-" + k, repr(o[k])]
    return out


DEFAULTS = dict(fstar_tdelay=1.0, mass_fit_min=7.0, ssfrh_floor=1e-12)


def judge(mon, res, cat, sfh, fit, opts, lgt0, fb, outfn, what, /, **kw):
    """the recorded fits and the collated rows against the catalogue"""
    n = len(cat.ids)
    key = {zlib.crc32(np.asarray(s, float).tobytes()): i for i, s in enumerate(sfh)}
    got = {}
    for c in res:
        a = c["args"]
        i = key.get(zlib.crc32(np.asarray(a["sfh_table"], float).tobytes()))
        if not mon.ok(i is not None, "fit:own-history", **kw):
            continue
        got.setdefault(i, []).append(c)
        mon.close(a["mah_params"], [x[i] for x in cat.halo], 1e-6 * (1 + np.abs([x[i] for x in cat.halo])), "fit:own-halo", galaxy=i, **kw)
        mon.same(a["t_table"], cat.t, "fit:times", **kw)
        for k, d in DEFAULTS.items():
            mon.close(a[k], opts.get(k, d), 1e-9 * abs(opts.get(k, d)), "option:" + k, given=k in opts, **kw)
        mon.close(a["dlogm_cut"], dfh.DLOGM_CUT, 0, "option:dlogm_cut", **kw)
        mon.close(a["t_fit_min"], dfh.T_FIT_MIN, 0, "option:t_fit_min", **kw)
        mon.close(a["lgt0"], lgt0, 1e-6, "fit:present-day", **kw)
        mon.close(a["fb"], fb, 1e-6, "fit:baryon-fraction", **kw)
    for i in range(n):
        mon.ok(len(got.get(i, [])) == int(fit[i]), "fit:once-if-eligible", galaxy=i, kind=str(cat.kind[i]), times=len(got.get(i, [])), eligible=bool(fit[i]), **kw)
    if not mon.ok(os.path.isfile(outfn), "output:written", **kw):
        return got
    with h5py.File(outfn, "r") as h:
        D = {k: h[k][...] for k in h}
    want = {"halo_id", *PARAMS, "loss", "success"}
    if not mon.ok(set(D) == want, "output:columns", got=sorted(D), **kw):
        return got
    if not mon.ok([len(v) == n for v in D.values()], "output:one-row-per-galaxy", got=[len(v) for v in D.values()], want=n, **kw):
        return got
    mon.same(D["halo_id"].astype(np.int64), cat.ids, "output:catalogue-order", **kw)
    for i in range(n):
        row = np.array([D[k][i] for k in PARAMS] + [D["loss"][i]], float)
        if fit[i] and len(got.get(i, [])) == 1:
            c = got[i][0]
            w = np.array(c["params"] + [c["loss"]])
            mon.close(row, w, 6e-6 * np.abs(w), "output:own-result", galaxy=i, **kw)
            mon.ok(int(D["success"][i]) == c["success"], "output:own-success", galaxy=i, **kw)
        elif not fit[i]:
            mon.same(row, np.array([dfh.NOFIT_FILL] * 8 + [-1.0]), "output:no-fit-record", galaxy=i, kind=str(cat.kind[i]), **kw)
            mon.ok(int(D["success"][i]) == -1, "output:no-fit-record", galaxy=i, **kw)
    ms, q = ls.load_fit_sfh(os.path.basename(outfn), data_drn=os.path.dirname(outfn))
    mon.same(np.concatenate([ms, q], 1), np.array([D[k] for k in PARAMS]).T, "output:loadable", **kw)
    return got


def ran(mon, res, kind, n, policy_, /, **kw):
    mon.ok(res["deadlock"] is None, "ranks:no-deadlock", waiting=res["deadlock"], **kw)
    mon.ok(not res["err"], "ranks:no-error", errors=res["err"], **kw)
    mon.state("interleaving", hashlib.sha1(repr(res["log"]).encode()).hexdigest()[:12])
    mon.state(kind, n, policy_)
    mon.sample(script=kind, ranks=n, policy=policy_, events=len(res["log"]), first=[list(map(str, e)) for e in res["log"][:8]])
    return res["deadlock"] is None and not res["err"]


def files(mon, before, after, new, own, /, **kw):
    """nothing left behind, nothing else touched"""
    for f in new:
        mon.ok(f in after, "files:output-present", file=f, **kw)
    for f in after:
        mon.ok(f in before or f in new, "files:nothing-left-behind", file=f, **kw)
        mon.ok(f not in own, "files:no-temporary-left", file=f, **kw)
    for f, h in before.items():
        if f in new or f in own:
            continue
        mon.ok(after.get(f) == h, "files:others-untouched", file=f, gone=f not in after, **kw)


def check_real(mon, got, sfh, cat, /, **kw):
    """a fit made inside a parallel run is the fit of that galaxy alone"""
    for j, (i, cs) in enumerate(sorted(got.items())):
        c = cs[0]
        k = 5 - j % 2
        pool().tell(k, cmd="fit", args=c["args"])
        r = pool().hear(k)
        mon.close(c["loss"], r["loss"], 1e-4 * abs(r["loss"]) + 1e-7, "real:loss", galaxy=i, **kw)
        mon.ok(c["success"] == r["success"], "real:success", galaxy=i, **kw)
        mon.close(c["params"], r["params"], 1e-3 * (1 + np.abs(r["params"])), "real:params", galaxy=i, **kw)


def pick(rng, rep):
    n = int((1, 2, 3, 5, 6, 4)[rep % 6])
    shape = ("one-per-rank", "uneven", "even", "more")[rep % 4]
    ng = {"one-per-rank": n, "uneven": 2 * n + 1, "even": 3 * n, "more": n + int(rng.integers(0, 9))}[shape]
    return n, ng, shape, POLICIES[(rep // 2) % 5]


def outdir(rng, root):
    rel = ("out", "out dir/with spaces", "out/", "results[1]", "out.d")[int(rng.integers(5))]
    p = os.path.join(root, rel)
    os.makedirs(p, exist_ok=True)
    return p, p if rng.random() < 0.7 else rel


def catalogue(rng, ng, t, lo, t0, real=False, span=(0.1, 3.0)):
    for _ in range(20):
        c = Cat(rng, ng, t, lo, t0, real, span)
        if not c.ambiguous():
            return c
    raise RuntimeError("no catalogue")


class Scratch:
    def __enter__(self):
        self.d = os.path.realpath(tempfile.mkdtemp())
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def script(kind):
    return os.path.join(core.REPO, "scripts", SCRIPTS[kind])


@CASES(quick=24, thorough=400, modes=("f32",))
def galacticus(mon, rng, real=False, n=None):
    kind = ("gal", "gal_mgash")[mon.rep % 2]
    n_, ng, shape, policy = pick(rng, mon.rep // 2)
    if n:
        n_, ng = n, n + int(rng.integers(0, 2 * n))
    n = n_
    if real:
        ng, policy = 4, "random"
    which = ("in_situ", "in_plus_ex_situ")[int(rng.integers(2))]
    o = {} if mon.rep == 0 else options(rng)
    lo = 10.5
    if rng.random() < 0.5:
        lo = round(float(rng.uniform(9.5, 12)), 2)
        o["logmp0_min"] = lo
    nt = 40 if real else int(rng.choice([7, 20]))
    t = np.linspace(0.3, float(rng.uniform(13, 14)), nt)
    cat = catalogue(rng, ng, t, lo, t[-1], real)
    other = cat.sfh * 10 ** rng.uniform(0.5, 1, cat.sfh.shape)
    insitu, tot = (cat.sfh, other) if which == "in_situ" else (other, cat.sfh)
    lgm = lgmstar(t, cat.sfh)
    fit = cat.fits(lgm)
    with Scratch() as root:
        ind = os.path.join(root, "in data")
        os.makedirs(ind)
        inbn = lgs.BNAME_SFH_DATA
        if rng.random() < 0.5:
            inbn = "other_name.h5"
        with h5py.File(os.path.join(ind, inbn), "w") as h:
            h["sfh_in_situ"], h["sfh_tot"], h["is_cen"], h["tarr"] = insitu, tot, np.ones(ng, int), t
        cat.write_halos(os.path.join(ind, "diffmah_fits.h5"))
        av = [which, "-indir", ind]
        if inbn != lgs.BNAME_SFH_DATA:
            av += ["-inbn", inbn]
        out = ind
        if rng.random() < 0.7:
            out, arg = outdir(rng, root)
            av += ["-outdir", arg]
        av += argv_of(o, rng)
        own = ["tmp_sfh_fits_rank_%d_%s.dat" % (i, which) for i in range(n)]
        rel = os.path.relpath(out, root)
        decoys(rng, out, own + ["diffstar_fits_%s.hdf5" % which])
        wrong = "in_situ" if which != "in_situ" else "in_plus_ex_situ"
        for f in ("tmp_sfh_fits_rank_0_%s.dat" % wrong, "diffstar_fits_%s.hdf5" % wrong):  # of a job running beside this one
            with open(os.path.join(out, f), "w") as h:
                h.write("of another job\n")
        before = digest(root)
        res = pool(n).run(script(kind), av, n, root, rng, policy, real)
        kw = dict(script=kind, ranks=n, policy=policy, argv=av)
        okay = ran(mon, res, kind, n, policy, **kw)
        after = digest(root)
        new = [os.path.normpath(os.path.join(rel, "diffstar_fits_%s.hdf5" % which))]
        files(mon, before, after, new, [os.path.normpath(os.path.join(rel, f)) for f in own], **kw)
        if okay:
            got = judge(mon, res["calls"], cat, cat.sfh, fit, o, np.log10(t[-1]), 0.0493 / 0.3153, os.path.join(root, new[0]), kind, **kw)
            if real:
                check_real(mon, got, cat.sfh, cat, **kw)
        mon.state(kind, which, shape, "outdir" if "-outdir" in av else "indir", *sorted(o))


@CASES(quick=12, thorough=250, modes=("f32",))
def tng(mon, rng, real=False, n=None):
    n_, ng, shape, policy = pick(rng, mon.rep)
    if n:
        n_, ng = n, n + int(rng.integers(0, 2 * n))
    n = n_
    if real:
        ng, policy = 4, "random"
    o = {} if mon.rep == 0 else options(rng)
    nt = 40 if real else int(rng.choice([7, 20]))
    t = np.linspace(0.4, float(rng.uniform(13, 14)), nt)
    cat = catalogue(rng, ng, t, 10.5, t[-1], real)
    with Scratch() as root:
        ind, dm = os.path.join(root, "tng in"), os.path.join(root, "mah")
        os.makedirs(ind), os.makedirs(dm)
        x = np.zeros(ng, dtype=[("mpeak", "f8"), ("sfh", "f8", (nt,)), ("mpeakh", "f8", (nt,))])
        x["sfh"], x["mpeakh"] = cat.sfh, 11.0
        np.save(os.path.join(ind, "tng_diffmah.npy"), x)
        np.save(os.path.join(ind, "tng_cosmic_time.npy"), t)
        cat.write_halos(os.path.join(dm, "diffmah_tng_fits.hdf5"))
        own = ["tmp_sfh_fits_rank_%d.dat" % i for i in range(n)]
        if mon.rep % 3 == 2:  # the directory does not exist yet: every rank may create it
            out = os.path.join(root, "new", "dir")
            arg = out
        else:
            out, arg = outdir(rng, root)
            decoys(rng, out, own + ["diffstar_tng_fits.hdf5"])
        av = [arg, "-indir", ind, "-indir_diffmah", dm, *argv_of(o, rng)]
        if rng.random() < 0.3:
            av += ["-outbase", "base", "-nchunks", str(int(rng.integers(1, 30)))]
        before = digest(root)
        res = pool(n).run(script("tng"), av, n, root, rng, policy, real)
        kw = dict(script="tng", ranks=n, policy=policy, argv=av)
        okay = ran(mon, res, "tng", n, policy, **kw)
        rel = os.path.relpath(out, root)
        new = [os.path.normpath(os.path.join(rel, "diffstar_tng_fits.hdf5"))]
        files(mon, before, digest(root), new, [os.path.normpath(os.path.join(rel, f)) for f in own], **kw)
        if okay:
            got = judge(mon, res["calls"], cat, cat.sfh, cat.fits(use_min=False), o, np.log10(t[-1]), 0.0486 / 0.3089, os.path.join(root, new[0]), "tng", **kw)
            if real:
                check_real(mon, got, cat.sfh, cat, **kw)
        mon.state("tng", shape, "new" if mon.rep % 3 == 2 else "old", *sorted(o))


@CASES(quick=16, thorough=300, modes=("f32",))
def umachine(mon, rng, real=False, n=None):
    kind = ("um", "um_mgash")[mon.rep % 2]
    n_, ng, shape, policy = pick(rng, mon.rep // 2)
    if n:
        n_, ng = n, n + int(rng.integers(0, 2 * n))
    n = n_
    sim = ("DR1", "DR1_nomerging")[int(rng.integers(2))]
    o = {} if mon.rep == 0 else options(rng)
    lo = 10.5
    if rng.random() < 0.5:
        lo = round(float(rng.uniform(9.5, 12)), 2)
        o["logmp0_min"] = lo
    nt = int(rng.choice([7, 20]))
    t0 = ls.T0_SMDPL
    t = np.linspace(0.4, t0, nt)
    first = int(rng.integers(0, 12))
    vols = list(range(first, first + int(rng.integers(1, 4))))
    cats = {}
    with Scratch() as root:
        din, dmah, pats = UM[sim]
        din, dmah = root + din, root + dmah
        os.makedirs(din), os.makedirs(dmah)
        np.savetxt(os.path.join(din, "smdpl_cosmic_time.txt"), t, fmt="%.18e")
        for v in (*vols, vols[-1] + 1):  # one subvolume more than asked for
            k = ng if v == vols[0] or rng.random() < 0.5 else n + int(rng.integers(0, 6))  # often as many as in the first
            # subvolumes differ in their masses: what one run learned about a subvolume must not reach the next
            c = catalogue(rng, k, t, lo, t0, span=((1.5, 3.0), (0.1, 1.0))[(v - vols[0] + mon.rep // 4) % 2])
            c.ids = rng.integers(0, 2**62, k)
            other = c.sfh * 10 ** rng.uniform(0.5, 1, c.sfh.shape)
            os.makedirs(os.path.join(din, "subvol_%03d" % v))
            x = np.zeros(k, dtype=[("halo_id", "i8"), ("sfr_history_main_prog", "f8", (nt,)), ("sfr_history_all_prog", "f8", (nt,)), ("mpeak_history_main_prog", "f8", (nt,))])
            x["halo_id"], x["mpeak_history_main_prog"] = c.ids, 1e12
            x["sfr_history_all_prog" if sim == "DR1" else "sfr_history_main_prog"] = c.sfh
            x["sfr_history_main_prog" if sim == "DR1" else "sfr_history_all_prog"] = other
            np.save(os.path.join(din, "mock_%d.npy" % v), x)
            for p in pats:
                c.write_halos(os.path.join(dmah, p.format(v)))
            cats[v] = c
        out, arg = outdir(rng, root)
        own = ["subvol_%03d_tmp_sfh_fits_rank_%d.dat" % (v, i) for v in vols for i in range(n)]
        new = ["diffstar_fits_subvol_%d.hdf5" % v for v in vols]
        decoys(rng, out, own + new)
        av = [arg, sim, "-istart", str(vols[0]), "-iend", str(vols[-1] + 1), *argv_of(o, rng)]
        before = digest(root)
        res = pool(n).run(script(kind), av, n, root, rng, policy, real)
        kw = dict(script=kind, ranks=n, policy=policy, argv=av)
        okay = ran(mon, res, kind, n, policy, **kw)
        rel = os.path.relpath(out, root)
        files(mon, before, digest(root), [os.path.normpath(os.path.join(rel, f)) for f in new], [os.path.normpath(os.path.join(rel, f)) for f in own], **kw)
        if okay:
            keys = {zlib.crc32(np.asarray(s, float).tobytes()): v for v in vols for s in cats[v].sfh}
            part = {v: [] for v in vols}
            for c in res["calls"]:
                v = keys.get(zlib.crc32(np.asarray(c["args"]["sfh_table"], float).tobytes()))
                if mon.ok(v is not None, "fit:own-history", **kw):
                    part[v].append(c)
            for v, f in zip(vols, new):
                judge(mon, part[v], cats[v], cats[v].sfh, cats[v].fits(), o, np.log10(t0), ls.FB_SMDPL, os.path.join(out, f), kind, subvolume=v, **kw)
        mon.state(kind, sim, shape, len(vols), *sorted(o))


@CASES(quick=8, thorough=150, modes=("f32",))
def halos(mon, rng, real=False, n=None):
    """the growth of each halo of a merger-tree file is fitted once, monotone and up to the present day"""
    n_, nh, shape, policy = pick(rng, mon.rep)
    if n:
        n_, nh = n, n + int(rng.integers(0, 2 * n))
    n = n_
    if real:
        nh, policy = 5, "random"
    o = {}
    dt_min = 0.5
    if rng.random() < 0.5:
        dt_min = round(float(rng.uniform(0.2, 4)), 3)
        o["dt_fit_min"] = dt_min
    t0 = float(rng.uniform(13, 14))
    H = []
    last = int(rng.integers(nh))  # one halo at least survives to the present day
    for i in range(nh):
        k = 60 if real else int(rng.integers(3, 25))
        short = rng.random() < 0.3
        end = t0 if (i == last or rng.random() < 0.4) else float(rng.uniform(4, t0 - 0.01))
        if i == last and nh > 1 and rng.random() < 0.3:
            short = False
        life = dt_min * float(rng.uniform(0.1, 0.95)) if short else min(end - 0.1, dt_min * float(rng.uniform(1.05, 4)) + float(rng.uniform(0, 3)) * (not short))
        if not short and life < dt_min * 1.02:
            life, end = dt_min * 1.2, max(end, dt_min * 1.2 + 0.1)
        t = np.linspace(end - life, end, k)
        lg = float(rng.uniform(10.5, 14)) + 2.5 * np.log10(t / t[-1])
        m = 10 ** (lg + rng.normal(0, float(rng.choice([0.0, 0.1])), k))
        H.append((t, m, life < dt_min))
    t0 = max(t[-1] for t, _, _ in H)
    with Scratch() as root:
        ind = os.path.join(root, "trees in")
        os.makedirs(ind)
        inbn = "galacticus_11To14.2Mhalo_SFHinsitu_AHearin.hdf5" if rng.random() < 0.5 else "other trees.hdf5"
        with h5py.File(os.path.join(ind, inbn), "w") as h:
            g = h.create_group("Outputs/Output1/nodeData")
            vl = h5py.vlen_dtype(np.dtype("f8"))
            for name, j in (("haloAccretionHistoryTime", 0), ("haloAccretionHistoryMass", 1)):
                d = g.create_dataset(name, (nh,), dtype=vl)
                for i in range(nh):
                    d[i] = H[i][j]
            g["nodeIsIsolated"], g["basicTimeLastIsolated"] = rng.integers(0, 2, nh), np.array([x[0][-1] for x in H])
        own = ["tmp_mah_fits_rank_%d.dat" % i for i in range(n)]
        outbn = "diffmah_fits.h5" if rng.random() < 0.5 else "my fits.h5"
        out, arg = outdir(rng, root)
        decoys(rng, out, own + [outbn])
        for f in ("tmp_mah_fits_rank_notes.dat", "tmp_mah_fits_rank_0.dat.bak"):
            with open(os.path.join(out, f), "w") as h:
                h.write("of the user\n")
        if rng.random() < 0.3:  # of an earlier run with more ranks
            with open(os.path.join(out, "tmp_mah_fits_rank_%d.dat" % n), "w") as h:
                h.write("# earlier\n1 2 3 4 5 6 7 8\n")
        av = ["-indir", ind, "-inbn", inbn, "-outdir", arg, "-outbn", outbn, *argv_of(o, rng)]
        before = digest(root)
        res = pool(n).run(script("halos"), av, n, root, rng, policy, real)
        kw = dict(script="halos", ranks=n, policy=policy, argv=av)
        okay = ran(mon, res, "halos", n, policy, **kw)
        rel = os.path.relpath(out, root)
        new = os.path.normpath(os.path.join(rel, outbn))
        files(mon, before, digest(root), [new], [os.path.normpath(os.path.join(rel, f)) for f in own], **kw)
        mon.state("halos", shape, "dt" if o else "default", len({x[2] for x in H}))
        if not okay:
            return
        want, order = [], []
        for t, m, skip in H:
            m = np.maximum.accumulate(m)
            if t[-1] < t0:
                t, m = np.append(t, t0), np.append(m, m[-1])
            want.append((t, m, skip))
        key = {zlib.crc32(t.tobytes() + m.tobytes()): i for i, (t, m, _) in enumerate(want)}
        got = {}
        for c in res["calls"]:
            i = key.get(zlib.crc32(np.asarray(c["t"]).tobytes() + np.asarray(c["mah"]).tobytes()))
            if not mon.ok(i is not None, "halo:own-monotone-history-to-present-day", ends=c["t"][-1], present=t0, **kw):
                continue
            order.append(i)
            got.setdefault(i, []).append(c)
            mon.ok(c["skip"] == want[i][2], "halo:skipped-if-short-lived", halo=i, life=float(H[i][0][-1] - H[i][0][0]), shortest=dt_min, **kw)
        for i in range(nh):
            mon.ok(len(got.get(i, [])) == 1, "halo:fitted-once", halo=i, times=len(got.get(i, [])), **kw)
        with h5py.File(os.path.join(root, new), "r") as h:
            D = {k: h[k][...] for k in h}
        cols = (*MCOLS, "loss")
        if not mon.ok(set(D) == {*cols, "n_points_per_fit", "fit_algo"} and {len(v) for v in D.values()} == {nh}, "halo:one-row-per-halo", got={k: len(v) for k, v in D.items()}, want=nh, **kw):
            return
        for i in range(nh):
            c = got.get(i, [None])[0]
            if c is None:
                continue
            w = np.array(c["row"])
            mon.close([D[k][i] for k in cols], w, 6e-6 * np.abs(w), "halo:own-result-in-order", halo=i, **kw)
            mon.ok((int(D["n_points_per_fit"][i]), int(D["fit_algo"][i])) == (c["npts"], c["code"]), "halo:own-counts-in-order", halo=i, **kw)
            if want[i][2]:
                mon.ok(D["fit_algo"][i] == -1 and D["loss"][i] < 0 and all(D[k][i] == -99.0 for k in MCOLS), "halo:no-fit-record", halo=i, **kw)


@CASES(quick=3, thorough=12, modes=("f32",))
def real_fits(mon, rng):
    """the real fitter inside a parallel run"""
    if mon.rep % 6 == 2:
        halos(mon, rng, real=True, n=3)
    elif mon.rep % 2:
        tng(mon, rng, real=True, n=2)
    else:
        galacticus(mon, rng, real=True, n=3)
    mon.state("real", mon.rep % 2)


@CASES(quick=5, thorough=25, modes=("f32",))
def many_ranks(mon, rng):
    """ten ranks and more: rank numbers of two digits"""
    n = int((11, 12, 10, 12)[mon.rep % 4])
    (galacticus, tng, umachine, galacticus, halos)[mon.rep % 5](mon, rng, n=n)
    mon.state("many_ranks", mon.rep % 5, n)
