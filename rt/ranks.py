"""Rank processes for the parallel scripts, and the coordinator that schedules them.

Each rank is a real process that executes a script under a stand-in for MPI.
Before every MPI call, every opening or removal of a file in the scratch
directory, every HDF5 open and every fit the rank reports an event and waits:
the coordinator decides who goes on, so the interleaving is chosen (and
recorded) rather than left to the machine.
"""

import ast
import builtins
import contextlib
import importlib
import importlib.abc
import importlib.machinery
import inspect
import io
import json
import os
import select
import subprocess
import sys
import time
import traceback
import types
import zlib


# ---- inside a rank -----------------------------------------------------------
class Link:
    def __init__(self, fin, fout):
        self.fin, self.fout = fin, fout
        self.live = False
        self.root = None
        self.busy = False

    def send(self, **kw):
        self.fout.write(json.dumps(kw) + "\n")
        self.fout.flush()

    def recv(self):
        line = self.fin.readline()
        if not line:
            os._exit(0)
        return json.loads(line)

    def event(self, kind, what="", **kw):
        """report and wait for permission; returns what the coordinator answered"""
        if not self.live or self.busy:
            return None
        self.busy = True
        try:
            self.send(ev=kind, what=str(what), **kw)
            r = self.recv()
        finally:
            self.busy = False
        if r.get("abort"):
            raise SystemExit("aborted by the coordinator")
        return r


LINK = None
CALLS = []
CFG = {}


def plain(x):
    import numpy as np

    if isinstance(x, (np.integer, np.floating, np.bool_)):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    return x


class Comm:
    def Get_rank(self):
        return CFG["rank"]

    def Get_size(self):
        return CFG["size"]

    rank = property(Get_rank)
    size = property(Get_size)

    def _coll(self, kind, value=None, root=0, op=None):
        r = LINK.event("coll", kind, value=plain(value), root=root)
        LINK.event("after", kind)
        vals = r["values"]
        if kind == "barrier":
            return None
        if kind == "bcast":
            return vals[root]
        if kind == "scatter":
            return vals[root][CFG["rank"]]
        if kind in ("gather", "reduce") and CFG["rank"] != root:
            return None
        if kind in ("gather", "allgather"):
            return vals
        import functools
        import operator

        f = {"SUM": operator.add, "MAX": max, "MIN": min, "PROD": operator.mul, "LAND": lambda a, b: a and b, "LOR": lambda a, b: a or b}[op or "SUM"]
        return functools.reduce(f, vals)

    def Barrier(self):
        self._coll("barrier")

    barrier = Barrier

    def reduce(self, x, op="SUM", root=0):
        return self._coll("reduce", x, root, op)

    def allreduce(self, x, op="SUM"):
        return self._coll("allreduce", x, 0, op)

    def gather(self, x, root=0):
        return self._coll("gather", x, root)

    def allgather(self, x):
        return self._coll("allgather", x)

    def bcast(self, x, root=0):
        return self._coll("bcast", x, root)

    def scatter(self, x, root=0):
        return self._coll("scatter", x, root)

    def Abort(self, code=1):
        raise RuntimeError("MPI Abort %s" % code)


def install_stubs():
    mpi = types.ModuleType("mpi4py.MPI")
    mpi.COMM_WORLD = Comm()
    for k in ("SUM", "MAX", "MIN", "PROD", "LAND", "LOR"):
        setattr(mpi, k, k)
    mpi.Wtime = time.time
    pkg = types.ModuleType("mpi4py")
    pkg.MPI = mpi
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = pkg, mpi

    um, lm = types.ModuleType("umachine_pyio"), types.ModuleType("umachine_pyio.load_mock")

    def load_mock_from_binaries(subvols, root_dirname=None, galprops=None, **kw):
        import numpy as np

        parts = [np.load(os.path.join(root_dirname, "mock_%d.npy" % int(s))) for s in subvols]
        x = np.concatenate(parts)
        return x[list(galprops)] if galprops is not None else x

    lm.load_mock_from_binaries = load_mock_from_binaries
    astropy_stub()
    um.load_mock = lm
    sys.modules["umachine_pyio"], sys.modules["umachine_pyio.load_mock"] = um, lm


def age_gyr(z, om=0.30712, h=67.77, t0=13.7976158):
    """age of a flat universe at redshift z, scaled so that it ends exactly at t0"""
    import numpy as np

    z = np.asarray(z, float)
    x = np.arcsinh(np.sqrt((1 - om) / om) * (1 + z) ** -1.5)
    return t0 * x / np.arcsinh(np.sqrt((1 - om) / om))


def astropy_stub():
    """as much of astropy.cosmology as the measurement scripts use"""

    class Age:
        def __init__(self, v):
            self.value = v

    class Cosmo:
        def age(self, z):
            return Age(age_gyr(z))

    try:
        import astropy.cosmology  # noqa: F401
    except ImportError:
        a, c = types.ModuleType("astropy"), types.ModuleType("astropy.cosmology")
        c.Planck13 = c.Planck15 = c.Planck18 = Cosmo()
        c.z_at_value = None
        a.cosmology = c
        sys.modules["astropy"], sys.modules["astropy.cosmology"] = a, c


def diffsky_names():
    """the scripts use the module's name in earlier releases of diffsky"""
    try:
        importlib.import_module("diffsky.diffndhist")
    except ImportError:
        m = importlib.import_module("diffsky.soft_histograms.diffndhist")
        sys.modules["diffsky.diffndhist"] = m


class Beside(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """modules that lie beside the script, with data locations redirected and constants of the run set"""

    def __init__(self, drn, root, patch):
        self.drn, self.root, self.patch, self.names = drn, root, patch, []

    def find_spec(self, name, path=None, target=None):
        fn = os.path.join(self.drn, name + ".py")
        if path is None and os.path.isfile(fn):
            return importlib.machinery.ModuleSpec(name, self, origin=fn)

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        diffsky_names()
        fn = mod.__spec__.origin
        self.names.append(mod.__name__)
        mod.__file__ = fn
        exec(prefixed(fn, self.root), mod.__dict__)
        for k, v in self.patch.items():
            if hasattr(mod, k):
                setattr(mod, k, v)


def prefixed(fn, root):
    tree = ast.fix_missing_locations(Prefix(root).visit(ast.parse(open(fn).read())))
    return compile(tree, fn, "exec")


class Prefix(ast.NodeTransformer):
    """absolute data locations named in a script are looked up below the scratch directory"""

    def __init__(self, root):
        self.root = root

    def visit_Constant(self, node):
        if isinstance(node.value, str) and node.value.startswith(("/lcrc/", "/Users/")):
            return ast.copy_location(ast.Constant(self.root + node.value), node)
        return node


def hooks():
    def audit(name, args):
        L = LINK
        if L is None or not L.live or L.busy or L.root is None:
            return
        if name in ("open", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "shutil.rmtree"):
            p = args[0]
            p = os.path.abspath(os.fsdecode(p)) if isinstance(p, (str, bytes)) else ""
            if p.startswith(L.root):
                mode = "w" if name != "open" or (isinstance(args[1], str) and args[1][:1] in "wax") else "r"
                L.event("file", name + ":" + mode + ":" + os.path.relpath(p, L.root))
        elif name in ("os.system", "subprocess.Popen"):
            L.event("shell", name)

    sys.addaudithook(audit)
    import h5py

    init = h5py.File.__init__

    def h5(self, name, *a, **kw):
        if LINK is not None and LINK.live and isinstance(name, str) and LINK.root and os.path.abspath(name).startswith(LINK.root):
            LINK.event("file", "hdf5:" + str(a[0] if a else kw.get("mode", "r")) + ":" + os.path.relpath(os.path.abspath(name), LINK.root))
        return init(self, name, *a, **kw)

    h5py.File.__init__ = h5


def stand_in(dfh):
    """replaces the fitter by one that records its arguments and answers at once"""
    import jax
    import numpy as np

    real = dfh.diffstar_fitter
    sig = inspect.signature(real)

    def fitter(*a, **kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        d = b.arguments
        sfh = np.asarray(d["sfh_table"], float)
        h = zlib.crc32(sfh.tobytes())
        LINK.event("fit", h)
        if CFG["real"]:
            np.random.seed(h & 0x7FFFFFFF)
            out = real(*a, **kw)
            p = [float(x) for x in jax.tree_util.tree_leaves(out[0])]
            loss, ok = float(out[1]), int(out[2])
        else:
            r = np.random.default_rng(h)
            p = (r.normal(0, 1, 8) * 10.0 ** r.integers(-3, 4, 8)).astype("f4").astype(float).tolist()
            loss, ok = float(10 ** r.uniform(-6, 1)), int(r.integers(-1, 2))
            from diffstar import DiffstarParams

            out = (DiffstarParams(*[np.float32(x) for x in p]), loss, ok)
        rec = {k: (np.asarray(v, float).tolist() if k in ("t_table", "sfh_table") else float(v)) for k, v in d.items() if k != "mah_params"}
        rec["mah_params"] = [float(x) for x in d["mah_params"]]
        CALLS.append(dict(args=rec, params=p, loss=loss, success=ok))
        return out

    dfh.diffstar_fitter = fitter
    return real


def halo_stand_in(cfh):
    """the same for the fitter of halo growth"""
    import numpy as np

    real = cfh.diffmah_fitter

    def fitter(t_sim, mah_sim, *a, force_skip_fit=False, **kw):
        t, m = np.asarray(t_sim, float), np.asarray(mah_sim, float)
        h = zlib.crc32(t.tobytes() + m.tobytes())
        LINK.event("halofit", h)
        if CFG["real"] or a or kw:
            out = real(t_sim, mah_sim, *a, force_skip_fit=force_skip_fit, **kw)
        else:
            r = np.random.default_rng(h)
            p, loss, code = (r.normal(0, 1, 5) * 10.0 ** r.integers(-3, 4, 5)).astype("f4").astype(float), float(10 ** r.uniform(-6, 1)), int(r.integers(0, 2))
            if force_skip_fit:
                p, loss, code = np.full(5, cfh.NOFIT_FILL), cfh.NOFIT_FILL, -1
            target = np.append(np.zeros(int(r.integers(0, 30))), 1.0)
            out = cfh.DiffmahFitResult(cfh.dk.DEFAULT_MAH_PARAMS._make(p), loss, force_skip_fit, not force_skip_fit, code, cfh.DiffmahFitLossData(target, target, 0.0, 0.0))
        npts = int(cfh._compute_non_trivial_npts_in_log_mah_target(out.loss_data.log_mah_target))
        CALLS.append(dict(t=t.tolist(), mah=m.tolist(), skip=bool(force_skip_fit), options=[len(a), sorted(kw)], row=[float(x) for x in out.p_best] + [float(out.loss_best)], npts=npts, code=int(out.code_used)))
        return out

    cfh.diffmah_fitter = fitter


def serve():
    global LINK
    from rt.worker import setup_import

    fin, fout = os.fdopen(os.dup(0), "r"), os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    LINK = Link(fin, fout)
    setup_import()
    install_stubs()
    importlib.import_module("diffstar.data_loaders.load_smah_data")
    dfh = importlib.import_module("diffstar.fitting_helpers.diffstar_fitting_helpers")
    real = stand_in(dfh)
    halo_stand_in(importlib.import_module("diffmah.fitting_helpers.diffmah_fitter_helpers"))
    hooks()
    LINK.send(ready=True)
    import numpy as np

    while True:
        c = LINK.recv()
        if c["cmd"] == "fit":  # the same fit, alone
            a = c["args"]
            sfh = np.asarray(a["sfh_table"], float)
            np.random.seed(zlib.crc32(sfh.tobytes()) & 0x7FFFFFFF)
            from rt.lib import MAH
            import jax

            kw = {k: v for k, v in a.items() if k not in ("t_table", "sfh_table", "mah_params")}
            out = real(np.asarray(a["t_table"]), sfh, MAH(*a["mah_params"]), **kw)
            LINK.send(done=True, params=[float(x) for x in jax.tree_util.tree_leaves(out[0])], loss=float(out[1]), success=int(out[2]))
            continue
        CFG.clear()
        CFG.update(c)
        CALLS.clear()
        err = None
        old, cwd = sys.argv, os.getcwd()
        beside = Beside(os.path.dirname(c["script"]), c["root"], c.get("patch") or {})
        sys.meta_path.insert(0, beside)
        np.random.seed(c.get("seed", 0))
        try:
            code = prefixed(c["script"], c["root"])
            g = {"__name__": "__main__", "__file__": c["script"], "__builtins__": builtins}
            sys.argv = [c["script"], *c["argv"]]
            os.chdir(c["root"])
            LINK.root, LINK.live = c["root"], True
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                LINK.event("start")
                exec(code, g)
        except SystemExit as e:
            err = None if e.code in (None, 0) else "SystemExit %s %s" % (e.code, buf.getvalue()[-600:])
        except BaseException:
            err = traceback.format_exc()[-1500:]
        finally:
            LINK.live = False
            sys.meta_path.remove(beside)
            for k in beside.names:
                sys.modules.pop(k, None)
            sys.argv = old
            os.chdir(cwd)
        LINK.send(done=True, err=err, calls=list(CALLS))


# ---- the coordinator -----------------------------------------------------------
class Pool:
    def __init__(self, n):
        self.procs = []
        for _ in range(n):
            self.procs.append(
                subprocess.Popen([sys.executable, "-m", "rt.ranks"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1, cwd=os.getcwd())
            )
        for p in self.procs:
            line = p.stdout.readline()
            if not line:
                raise RuntimeError("a rank process did not start")

    def close(self):
        for p in self.procs:
            p.stdin.close()
        for p in self.procs:
            try:
                p.wait(timeout=5)
            except subprocess.TimeoutExpired:
                p.kill()

    def tell(self, i, **kw):
        self.procs[i].stdin.write(json.dumps(kw) + "\n")
        self.procs[i].stdin.flush()

    def hear(self, i, timeout=300):
        r, _, _ = select.select([self.procs[i].stdout], [], [], timeout)
        if not r:
            raise RuntimeError("rank %d is silent" % i)
        line = self.procs[i].stdout.readline()
        if not line:
            raise RuntimeError("rank %d died" % i)
        return json.loads(line)

    def run(self, script, argv, n, root, rng, policy, real=False, patch=None):
        """execute the script on n ranks under a schedule; returns dict(log, err, calls, deadlock)"""
        for i in range(n):
            self.tell(i, cmd="run", script=script, argv=argv, rank=i, size=n, root=root, real=real, patch=patch, seed=int(rng.integers(2**31)))
        state = {}  # rank -> pending event
        done, log = {}, []

        def take(i):
            m = self.hear(i)
            if m.get("done"):
                done[i] = m
                state.pop(i, None)
            else:
                state[i] = m

        for i in range(n):
            take(i)
        prio = rng.permutation(n).tolist()
        steps, deadlock, aborted = 0, None, False
        turn = 0
        while state:
            run = [i for i, m in state.items() if m["ev"] != "coll"]
            if not run:
                kinds = {(m["what"], m["root"]) for m in state.values()}
                if len(state) == n and len(kinds) == 1:
                    vals = [state[i].get("value") for i in range(n)]
                    for i in range(n):
                        log.append((i, "coll", state[i]["what"]))
                        self.tell(i, values=vals)
                    for i in range(n):
                        take(i)
                    continue
                deadlock = {str(i): m["what"] for i, m in state.items()}
                aborted = True
                for i in list(state):
                    self.tell(i, abort=True)
                for i in list(state):
                    take(i)
                while state:  # a script that survives the abort is stopped again
                    for i in list(state):
                        self.tell(i, abort=True)
                        take(i)
                break
            if policy == "random":
                i = run[int(rng.integers(len(run)))]
            elif policy == "priority":
                if rng.random() < 0.05:
                    prio = rng.permutation(n).tolist()
                i = min(run, key=lambda r: prio[r])
            elif policy == "rank0first":
                i = min(run)
            elif policy == "rank0last":
                i = max(run)
            else:  # round robin
                turn += 1
                i = sorted(run)[turn % len(run)]
            m = state[i]
            log.append((i, m["ev"], m["what"]))
            steps += 1
            self.tell(i, go=True)
            take(i)
        return dict(log=log, steps=steps, deadlock=deadlock, aborted=aborted, err={i: d.get("err") for i, d in done.items() if d.get("err")}, calls=[c for i in sorted(done) for c in [dict(x, rank=i) for x in done[i]["calls"]]])


if __name__ == "__main__":
    serve()
