"""Independent float64 NumPy model of what diffstar documents.

Nothing here imports diffstar.  Written from the docstrings, the published
bounds and the papers' equations; constants are literals on purpose, so that a
change of a constant in the code shows up as a disagreement.
"""

import numpy as np

SFR_MIN = 1e-14
T_BIRTH_MIN = 0.001
FB = 0.156
TODAY = 13.8

PNAMES = ("lgmcrit", "lgy_at_mcrit", "indx_lo", "indx_hi", "lg_qt", "qlglgdt", "lg_drop", "lg_rejuv")
BOUNDS = dict(
    lgmcrit=(9.0, 13.5), lgy_at_mcrit=(-12.0, -8.0), indx_lo=(0.0, 5.0), indx_hi=(-5.0, 0.0),
    lg_qt=(0.1, 2.0), qlglgdt=(-3.0, -0.01), lg_drop=(-3.0, 0.0), lg_rejuv=(-3.0, 0.0),
)
DEFAULTS = dict(
    lgmcrit=12.0, lgy_at_mcrit=-10.0, indx_lo=1.0, indx_hi=-1.0,
    lg_qt=1.0, qlglgdt=-0.50725, lg_drop=-1.01773, lg_rejuv=-0.212307,
)


def expit(x):
    x = np.asarray(x, dtype=np.float64)
    with np.errstate(over="ignore"):
        e = np.exp(-np.abs(x))
    return np.where(x >= 0, 1.0 / (1.0 + e), e / (1.0 + e))


def sigmoid(x, x0, k, lo, hi):
    return lo + (hi - lo) * expit(k * (np.asarray(x, dtype=np.float64) - x0))


def inv_sigmoid(y, x0, k, lo, hi):
    y = np.asarray(y, dtype=np.float64)
    return x0 + np.log((y - lo) / (hi - y)) / k


# ---- halo growth ---------------------------------------------------------
def lgmh_nofreeze(mah, t, lgt0):
    logm0, logtc, early, late = mah[:4]
    lgt = np.log10(t)
    return sigmoid(lgt, logtc, 3.5, early, late) * (lgt - lgt0) + logm0


def lgmh(mah, t, lgt0):
    """mah entries broadcast against t"""
    tp = np.asarray(mah[4], dtype=np.float64)
    return lgmh_nofreeze(mah, np.minimum(t, tp), lgt0)


def dmhdt(mah, t, lgt0):
    """Msun/yr; zero after the peak"""
    logm0, logtc, early, late, tp = [np.asarray(x, np.float64) for x in mah]
    t = np.asarray(t, np.float64)
    lgt = np.log10(t)
    s = expit(3.5 * (lgt - logtc))
    idx = early + (late - early) * s
    didx = (late - early) * 3.5 * s * (1 - s)
    dlgm = didx * (lgt - lgt0) + idx  # dlog10 M / dlog10 t
    out = 10 ** lgmh_nofreeze(mah, t, lgt0) * dlgm / t / 1e9
    return np.where(t > tp, 0.0, out)


# ---- star formation ------------------------------------------------------
def lg_eff(lgm, lgmcrit, lgy, lo, hi):
    return lgy + sigmoid(lgm, lgmcrit, 9.0, lo, hi) * (lgm - lgmcrit)


def tw_cdf(z):
    z = np.clip(np.asarray(z, dtype=np.float64), -3.0, 3.0)
    return -5 * z**7 / 69984 + 7 * z**5 / 2592 - 35 * z**3 / 864 + 35 * z / 96 + 0.5


def lg_quench(lgt, lg_qt, qlglgdt, lg_drop, lg_rejuv):
    h = 10.0 ** np.asarray(qlglgdt, np.float64) / 12.0
    y = (lgt - lg_qt) / h
    down = lg_drop * tw_cdf(y + 3.0)
    up = lg_drop - (lg_drop - lg_rejuv) * tw_cdf(y - 3.0)
    return np.where(y < 0, down, up)


def lg_sfr(p, mah, t, lgt0, fb):
    """log10 SFR before the floor; p (8) and mah (5) broadcast against t"""
    lgm = lgmh(mah, t, lgt0)
    return np.log10(fb) + lgm + lg_eff(lgm, *p[:4]) + lg_quench(np.log10(t), *p[4:])


def sfr(p, mah, t, lgt0, fb):
    with np.errstate(over="ignore", under="ignore"):
        return np.maximum(10.0 ** lg_sfr(p, mah, t, lgt0, fb), SFR_MIN)


def col(params):
    """tuple of (ngal,) arrays -> (ngal, 1) arrays for broadcasting with t"""
    return tuple(np.atleast_1d(np.asarray(x, np.float64))[:, None] for x in params)


# ---- integrals -----------------------------------------------------------
def smh(t, sfh):
    """cumulative trapezoid from (T_BIRTH_MIN, SFR_MIN), Msun; sfh (..., nt)"""
    t = np.concatenate([[T_BIRTH_MIN], np.asarray(t, np.float64)])
    sfh = np.asarray(sfh, np.float64)
    pad = np.full(sfh.shape[:-1] + (1,), SFR_MIN)
    s = np.concatenate([pad, sfh], axis=-1)
    return np.cumsum(np.diff(t) * 0.5 * (s[..., 1:] + s[..., :-1]), axis=-1) * 1e9


def dt_bins(t):
    """width of the bin around each point; the outer half-bins mirror the documented edges"""
    t = np.asarray(t, np.float64)
    mid = 0.5 * (t[1:] + t[:-1])
    lo = np.concatenate([[t[0] - (t[1] - t[0]) / 2], mid])
    w = np.empty_like(t)
    w[:-1] = mid - lo[:-1]
    w[-1] = t[-1] + w[-2] / 2 - lo[-1]
    return w


def fstar(t, m, delay):
    t, m = np.asarray(t, np.float64), np.asarray(m, np.float64)
    lo = np.interp(t - delay, t, m)
    return np.maximum((m - lo) / delay / 1e9, 0.0)


# ---- galaxy parameter bounds --------------------------------------------
def _k(lo, hi):
    return 4.0 / (hi - lo)


def bound_galaxy(u):
    """u: 8 arrays -> 8 arrays"""
    out = []
    for name, x in zip(PNAMES[:7], u[:7]):
        lo, hi = BOUNDS[name]
        out.append(sigmoid(x, 0.5 * (lo + hi), _k(lo, hi), lo, hi))
    out.append(sigmoid(u[7], -1.5, 4.0 / 3.0, out[6], 0.0))
    return tuple(out)


def unbound_galaxy(p):
    out = []
    for name, x in zip(PNAMES[:7], p[:7]):
        lo, hi = BOUNDS[name]
        out.append(inv_sigmoid(x, 0.5 * (lo + hi), _k(lo, hi), lo, hi))
    out.append(inv_sigmoid(p[7], -1.5, 4.0 / 3.0, p[6], 0.0))
    return tuple(out)


UNQUENCHED_U = (5.0, 5.0, 5.0, 5.0)

# ---- population model ----------------------------------------------------
_ULG = (11.0, 14.0)
POP_BOUNDS = {}
for _s in ("cen", "sat"):
    POP_BOUNDS.update({
        f"frac_quench_{_s}_x0_tpeak": (1.0, 14.0),
        f"frac_quench_{_s}_k_tpeak": (0.01, 10.0),
        f"frac_quench_{_s}_x0_ylotpeak": _ULG,
        f"frac_quench_{_s}_x0_yhitpeak": _ULG,
        f"frac_quench_{_s}_ylo_ylotpeak": (0.0, 1.0),
        f"frac_quench_{_s}_ylo_yhitpeak": (0.0, 1.0),
        f"frac_quench_{_s}_k": (0.01, 5.0),
        f"frac_quench_{_s}_yhi": (0.0, 1.0),
    })
for _q in ("mseq", "qseq"):
    POP_BOUNDS.update({
        f"mean_ulgm_{_q}_xtp": _ULG, f"mean_ulgm_{_q}_ytp": _ULG,
        f"mean_ulgm_{_q}_lo": (-1.0, 5.0), f"mean_ulgm_{_q}_hi": (-5.0, 1.0),
        f"mean_ulgy_{_q}_xtp": _ULG, f"mean_ulgy_{_q}_ytp": (-13.0, -8.0),
        f"mean_ulgy_{_q}_lo": (-1.0, 5.0), f"mean_ulgy_{_q}_hi": (-5.0, 1.0),
        f"mean_ul_{_q}_int": (-3.0, 5.0), f"mean_ul_{_q}_slp": (-20.0, 20.0),
        f"mean_uh_{_q}_int": (-5.0, 3.0), f"mean_uh_{_q}_slp": (-20.0, 20.0),
    })
POP_BOUNDS.update({
    "mean_uqt_xtp": _ULG, "mean_uqt_ytp": (0.0, 2.0), "mean_uqt_lo": (-1.0, 0.0), "mean_uqt_hi": (-1.0, 0.0),
    "mean_uqs_int": (-5.0, 2.0), "mean_uqs_slp": (-20.0, 20.0),
    "mean_udrop_int": (-3.0, 2.0), "mean_udrop_slp": (-20.0, 20.0),
    "mean_urej_int": (-10.0, 2.0), "mean_urej_slp": (-20.0, 20.0),
})
LINE_BOUNDS = dict(
    mean_ulgm=(11.0, 13.0), mean_ulgy=(-13.0, -7.0), mean_ul=(-3.0, 5.0), mean_uh=(-5.0, 3.0),
    mean_uqt=(0.0, 2.0), mean_uqs=(-5.0, 2.0), mean_udrop=(-3.0, 2.0), mean_urej=(-10.0, 2.0),
    std_ulgm=(0.01, 1.0), std_ulgy=(0.01, 1.0), std_ul=(0.01, 3.0), std_uh=(0.01, 3.0),
    std_uqt=(0.01, 0.5), std_uqs=(0.01, 1.0), std_udrop=(0.01, 2.0), std_urej=(0.01, 2.0),
)
for _q in ("mseq", "qseq"):
    for _n in ("ulgm", "ulgy", "ul", "uh"):
        POP_BOUNDS[f"std_{_n}_{_q}_int"] = LINE_BOUNDS["std_" + _n]
        POP_BOUNDS[f"std_{_n}_{_q}_slp"] = (-1.0, 1.0)
for _n in ("uqt", "uqs", "udrop", "urej"):
    POP_BOUNDS[f"std_{_n}_int"] = LINE_BOUNDS["std_" + _n]
    POP_BOUNDS[f"std_{_n}_slp"] = (-1.0, 1.0)
POP_BOUNDS.update({
    "delta_uqt_x0": (1.0, 14.0), "delta_uqt_k": (0.01, 5.0), "delta_uqt_ylo": (-1.0, 1.0),
    "delta_uqt_yhi": (-1.0, 1.0), "delta_uqt_slope": (-0.1, 0.1),
})
SAT_BOUNDS = {
    "qp_lgmh_crit": (11.0, 15.0), "td_lgmhc": (11.0, 15.0), "td_mlo": (-5.0, 10.0), "td_mhi": (-5.0, 10.0),
    "qphi_lgmu_crit": (-4.0, -0.1), "lgmu_lo_mh_lo": (0.0, 1.0), "lgmu_hi_mh_lo": (0.0, 1.0),
    "lgmu_lo_mh_hi": (0.0, 1.0), "lgmu_hi_mh_hi": (0.0, 1.0),
}
ALL_POP_BOUNDS = {**POP_BOUNDS, **SAT_BOUNDS}
POP_K = 0.1


def bound_pop(u, lo, hi):
    return sigmoid(u, 0.5 * (lo + hi), POP_K, lo, hi)


def unbound_pop(p, lo, hi):
    return inv_sigmoid(p, 0.5 * (lo + hi), POP_K, lo, hi)


def clipped_line(x, x0, y0, m, y_lo, y_hi):
    """straight line smoothly clipped: transitions 1% of the way from each bound to y0"""
    x = np.asarray(x, np.float64)
    y = y0 + m * (x - x0)
    a = y_lo + (y0 - y_lo) / 100.0
    b = y_hi - (y_hi - y0) / 100.0
    k = 2000.0 / (y0 - y_lo)
    z = a + (y - a) * expit(k * (y - a))
    return z + (b - z) * expit(k * (y - b))


def _line(P, x, name, key):
    return clipped_line(x, 12.5, P[name + "_int"], P[name + "_slp"], *LINE_BOUNDS[key])


def _roll(P, x, name):
    xtp, ytp = P[name + "_xtp"], P[name + "_ytp"]
    return ytp + sigmoid(x, xtp, 3.0, P[name + "_lo"], P[name + "_hi"]) * (x - xtp)


def pop_means(P, logmp0, tpeak):
    """P dict of 1 pop param set; logmp0, tpeak arrays -> (ms (n,4), q (n,8))"""
    x = np.asarray(logmp0, np.float64)
    ms = [_roll(P, x, "mean_ulgm_mseq"), _roll(P, x, "mean_ulgy_mseq"),
          _line(P, x, "mean_ul_mseq", "mean_ul"), _line(P, x, "mean_uh_mseq", "mean_uh")]
    dq = sigmoid(tpeak, P["delta_uqt_x0"], P["delta_uqt_k"], P["delta_uqt_ylo"], P["delta_uqt_yhi"])
    dq = dq + (x - 12.5) * P["delta_uqt_slope"]
    q = [_roll(P, x, "mean_ulgm_qseq"), _roll(P, x, "mean_ulgy_qseq"),
         _line(P, x, "mean_ul_qseq", "mean_ul"), _line(P, x, "mean_uh_qseq", "mean_uh"),
         _roll(P, x, "mean_uqt") + dq, _line(P, x, "mean_uqs", "mean_uqs"),
         _line(P, x, "mean_udrop", "mean_udrop"), _line(P, x, "mean_urej", "mean_urej")]
    return np.stack(np.broadcast_arrays(*ms), -1), np.stack(np.broadcast_arrays(*q), -1)


def pop_stds(P, logmp0):
    x = np.asarray(logmp0, np.float64)
    n4 = ("ulgm", "ulgy", "ul", "uh")
    ms = [_line(P, x, f"std_{n}_mseq", "std_" + n) for n in n4]
    qms = [_line(P, x, f"std_{n}_qseq", "std_" + n) for n in n4]
    qq = [_line(P, x, f"std_{n}", "std_" + n) for n in ("uqt", "uqs", "udrop", "urej")]
    return np.stack(ms, -1), np.stack(qms, -1), np.stack(qq, -1)


def frac_quench(P, s, logmp0, tpeak):
    pre = f"frac_quench_{s}_"
    x0 = sigmoid(tpeak, P[pre + "x0_tpeak"], P[pre + "k_tpeak"], P[pre + "x0_ylotpeak"], P[pre + "x0_yhitpeak"])
    ylo = sigmoid(tpeak, P[pre + "x0_tpeak"], P[pre + "k_tpeak"], P[pre + "ylo_ylotpeak"], P[pre + "ylo_yhitpeak"])
    return sigmoid(logmp0, x0, P[pre + "k"], ylo, P[pre + "yhi"])


def sat_boost(P, lgmu, lgmhost, gyr):
    lo = sigmoid(lgmu, P["qphi_lgmu_crit"], 2.0, P["lgmu_lo_mh_lo"], P["lgmu_hi_mh_lo"])
    hi = sigmoid(lgmu, P["qphi_lgmu_crit"], 2.0, P["lgmu_lo_mh_hi"], P["lgmu_hi_mh_hi"])
    qhi = sigmoid(lgmhost, P["qp_lgmh_crit"], 5.0, lo, hi)
    td = sigmoid(lgmhost, P["td_lgmhc"], 5.0, P["td_mlo"], P["td_mhi"])
    return qhi * expit(5.0 * (np.asarray(gyr, np.float64) - td))


def frac_q(P, logmp0, tpeak, is_cen, lgmu, lgmhost, gyr):
    c = frac_quench(P, "cen", logmp0, tpeak)
    s = frac_quench(P, "sat", logmp0, tpeak)
    s = s + sat_boost(P, lgmu, lgmhost, gyr) * (1.0 - s)
    return np.where(is_cen, c, s), c, s


# ---- histograms ----------------------------------------------------------
def tw_bin(x, sig, lo, hi):
    return tw_cdf((x - lo) / sig) - tw_cdf((x - hi) / sig)


def ndhist(data, sig, lo, hi, y=None):
    """data, sig (n, d); lo, hi (b, d) -> (b,)"""
    data, sig, lo, hi = [np.asarray(a, np.float64) for a in (data, sig, lo, hi)]
    w = np.ones((lo.shape[0], data.shape[0]))
    for d in range(data.shape[1]):
        w = w * tw_bin(data[None, :, d], sig[None, :, d], lo[:, None, d], hi[:, None, d])
    if y is not None:
        w = w * np.asarray(y, np.float64).reshape(-1)[None, :]
    return w.sum(axis=1)
