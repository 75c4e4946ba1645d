"""Run a script of the repository inside the monitored process, below a scratch directory."""

import builtins
import contextlib
import importlib
import io
import os
import sys

import numpy as np

from . import core, ranks

DRN = os.path.join(core.REPO, "scripts", "diffstarpop_scripts")


@contextlib.contextmanager
def beside(drn, root, patch=None):
    """modules that lie beside the scripts can be imported; they are forgotten afterwards"""
    b = ranks.Beside(drn, root, patch or {})
    sys.meta_path.insert(0, b)
    try:
        yield b
    finally:
        sys.meta_path.remove(b)
        for k in b.names:
            sys.modules.pop(k, None)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as s, contextlib.redirect_stderr(io.StringIO()):
        yield s


@contextlib.contextmanager
def replaced(mod, **names):
    old = {k: getattr(mod, k) for k in names}
    for k, v in names.items():
        setattr(mod, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(mod, k, v)


def module(name, root, drn=DRN, patch=None):
    with beside(drn, root, patch), quiet():
        return importlib.import_module(name)


def run(fn, argv, root, patch=None, seed=0):
    """the namespace the script leaves"""
    old, cwd = sys.argv, os.getcwd()
    g = {"__name__": "__main__", "__file__": fn, "__builtins__": builtins}
    np.random.seed(seed)
    with beside(os.path.dirname(fn), root, patch), quiet():
        try:
            sys.argv = [fn, *map(str, argv)]
            os.chdir(root)
            exec(ranks.prefixed(fn, root), g)
        except SystemExit as e:
            if e.code not in (None, 0):
                raise RuntimeError("exit %s" % e.code) from e
        finally:
            sys.argv = old
            os.chdir(cwd)
    return g
