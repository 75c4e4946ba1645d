"""Derivatives against finite differences (x64) and finiteness in both directions."""

import jax
import jax.numpy as jnp
import numpy as np


class Diff:
    """wraps f(x, *rest) -> (m,) with its batched value and both Jacobians, compiled once"""

    def __init__(self, f, nrest=0, rev=True):
        ax = (0,) + (None,) * nrest
        self.val = jax.jit(jax.vmap(f, in_axes=ax))
        self.fwd = jax.jit(jax.jacfwd(f))
        self.rev = jax.jit(jax.jacrev(f)) if rev else None

    def ad(self, mon, x, rest, oracle, /, jnoise=None, **kw):
        """Jacobian (m, k) as float64, checked to be finite wherever the value is, forward = reverse"""
        x = jnp.asarray(x)
        v = np.asarray(self.val(x[None], *rest))[0]
        Jf = np.asarray(self.fwd(x, *rest), np.float64)
        fin = np.isfinite(v)[:, None] & np.ones_like(Jf, bool)
        mon.ok(np.isfinite(Jf) | ~fin, oracle + ":finite", mode="forward", **kw)
        if self.rev is not None:
            Jr = np.asarray(self.rev(x, *rest), np.float64)
            mon.ok(np.isfinite(Jr) | ~fin, oracle + ":finite", mode="reverse", **kw)
            e = 1e-9 if mon.x64 else 2e-3
            tol = e * (np.abs(Jf) + np.abs(Jf).max(axis=1, keepdims=True) + 1e-3)
            if jnoise is not None:
                tol = tol + jnoise(v, Jf)
            if np.isfinite(Jr).all() and np.isfinite(Jf).all():
                mon.close(Jr, Jf, tol, oracle + ":forward=reverse", **kw)
        return v, Jf

    def fd(self, x, rest, h, vnoise=None):
        """Richardson-extrapolated central differences (m, k), error estimate and row scale"""
        x = np.asarray(x, np.float64)
        k = len(x)
        h = np.broadcast_to(np.asarray(h, np.float64), (k,))
        pts = []
        for s in (1.0, -1.0, 0.5, -0.5):
            pts.append(x[None] + s * np.diag(h))
        V = np.asarray(self.val(jnp.asarray(np.concatenate(pts))), np.float64) if not rest else np.asarray(
            self.val(jnp.asarray(np.concatenate(pts)), *rest), np.float64)
        p1, m1, p2, m2 = V[:k], V[k : 2 * k], V[2 * k : 3 * k], V[3 * k :]
        D1 = (p1 - m1) / (2 * h[:, None])
        D2 = (p2 - m2) / h[:, None]
        # one-sided slopes expose kinks that symmetric differences average away
        v0 = np.asarray(self.val(jnp.asarray(x[None]), *rest), np.float64)
        kink = np.abs((p2 - v0) - (v0 - m2)) / (0.5 * h[:, None])
        D = (4 * D2 - D1) / 3
        mag = np.abs(V).max(axis=0)
        if vnoise is not None:
            mag = mag + vnoise(v0[0])
        noise = 60 * 2.3e-16 * mag[None] / h[:, None]
        err = np.abs(D1 - D2) + np.where(kink > 0.2 * np.abs(D2), kink, 0.0) + noise
        return D.T, err.T

    def check(self, mon, x, rest, h, oracle, /, rel=2e-6, names=None, vnoise=None, jnoise=None, **kw):
        """x64 only: AD slope equals the finite-difference slope"""
        v, J = self.ad(mon, x, rest, oracle, jnoise=jnoise, **kw)
        D, err = self.fd(x, rest, h, vnoise)
        ok = np.isfinite(D) & np.isfinite(err) & np.isfinite(v)[:, None]
        tol = 3 * err + rel * np.abs(D)
        if jnoise is not None:
            tol = tol + jnoise(v, J)
        good = ok & np.isfinite(J)
        mon.close(np.where(good, J, 0), np.where(good, D, 0), np.where(good, tol, 1), oracle + ":slope", names=names, **kw)
        informative = good & (tol < 0.05 * np.abs(D))
        live = informative.any(axis=0)
        if names is not None:
            for n, l in zip(names, live):
                if l:
                    mon.state("slope-resolved", oracle, n)
        return v, J, live


def ref_fd(f, x, h):
    """central differences of a NumPy function R^k -> R^m (float64)"""
    x = np.asarray(x, np.float64)
    J, E = [], []
    for i in range(len(x)):
        d = []
        for s in (1.0, 0.5):
            a, b = x.copy(), x.copy()
            a[i] += s * h[i]
            b[i] -= s * h[i]
            d.append((f(a) - f(b)) / (a[i] - b[i]))
        J.append((4 * d[1] - d[0]) / 3)
        E.append(np.abs(d[1] - d[0]))
    return np.stack(J, -1), np.stack(E, -1)
