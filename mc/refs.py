"""Reference models: plain numpy/math transcriptions of the *specified* behaviour.

Deliberately boring and slow; no jax, no dsps import.
"""
import math

import numpy as np

SFR_MIN, T_BIRTH_MIN = 1e-14, 0.001
LGMET_LO, LGMET_HI = -10.0, 10.0
L_SUN = 3.828e33
AB0 = 1.13492e-13


# ---- grids
def dt_array(t):
    t = np.asarray(t, float)
    n = len(t)
    mids = [(t[i] + t[i + 1]) / 2 for i in range(n - 1)]
    dt = np.empty(n)
    for i in range(1, n - 1):
        dt[i] = mids[i] - mids[i - 1]
    dt[0] = mids[0] - (t[0] - (t[1] - t[0]) / 2)
    dt[-1] = (t[-1] + (mids[-1] - mids[-2]) / 2) - mids[-1]
    return dt


def bin_edges(mids, lo, hi):
    mids = np.asarray(mids, float)
    dt = dt_array(mids)
    return np.array([lo] + [mids[i] - dt[i] / 2 for i in range(1, len(mids))] + [hi])


def age_edges(lg_age):
    a = np.asarray(lg_age, float)
    return bin_edges(a, a[0] - (a[1] - a[0]) / 2, a[-1] + dt_array(a)[-1] / 2)


def edges_ordered(e):
    return bool(np.all(np.diff(e) > 0))


# ---- integrals
def trapz(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return math.fsum((x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2 for i in range(len(x) - 1))


def trapz_v(x, y):
    """vectorised over leading axes of y"""
    x, y = np.asarray(x, float), np.asarray(y, float)
    return np.sum((x[..., 1:] - x[..., :-1]) * (y[..., 1:] + y[..., :-1]) / 2, axis=-1)


def cumtrapz(x, y):
    out, acc = [0.0], 0.0
    for i in range(1, len(x)):
        acc += (x[i] - x[i - 1]) * (y[i] + y[i - 1]) / 2
        out.append(acc)
    return np.array(out)


def cum_mstar(t, sfr):
    t = np.concatenate([[T_BIRTH_MIN], np.asarray(t, float)])
    s = np.concatenate([[SFR_MIN], np.asarray(sfr, float)])
    return np.cumsum((t[1:] - t[:-1]) * (s[1:] + s[:-1]) / 2) * 1e9


def interp(x, xp, fp):
    return np.interp(x, xp, fp)


def interp0(x, xp, fp):
    return np.interp(x, xp, fp, left=0.0, right=0.0)


# ---- ages
def lgt_birth(t_obs, lg_age):
    t = t_obs - 10 ** np.asarray(lg_age, float)
    return np.log10(np.where(t < T_BIRTH_MIN, T_BIRTH_MIN, t))


def logsm_table(t, sfr, sfr_min=SFR_MIN):
    sfr = np.asarray(sfr, float)
    return np.log10(cum_mstar(t, np.where(sfr < sfr_min, sfr_min, sfr)))


def age_weights(t, sfr, lg_age, t_obs, sfr_min=SFR_MIN, edges=None):
    """-> weights, conditioning slack (absolute)"""
    e = age_edges(lg_age) if edges is None else edges
    lm = np.interp(lgt_birth(t_obs, e), np.log10(t), logsm_table(t, sfr, sfr_min))
    m = 10 ** lm
    d = -np.diff(m)
    tot = d.sum()
    with np.errstate(all="ignore"):
        w = d / tot
        slack = 1e-10 + 3e-12 * m.max() / tot if tot > 0 else np.inf
    return w, slack


def mstar_obs(t, sfr, t_obs, sfr_min=SFR_MIN):
    return 10 ** np.interp(np.log10(t_obs), np.log10(t), logsm_table(t, sfr, sfr_min))


# ---- metallicity
def tw_cdf(x, m, h):
    z = (np.asarray(x, float) - m) / h
    v = -5 * z**7 / 69984 + 7 * z**5 / 2592 - 35 * z**3 / 864 + 35 * z / 96 + 0.5
    return np.where(z < -3, 0.0, np.where(z > 3, 1.0, v))


def tw_pdf(x, m, h):
    z = (np.asarray(x, float) - m) / h
    return np.where(np.abs(z) > 3, 0.0, 35 / 96 * (1 - (z / 3) ** 2) ** 3 / h)


def met_weights(lgmet, scatter, ssp_lgmet, lo=LGMET_LO, hi=LGMET_HI):
    """-> weights, absolute slack"""
    e = bin_edges(ssp_lgmet, lo, hi)
    return met_weights_edges(lgmet, scatter, e)


def met_weights_edges(lgmet, scatter, e):
    c = tw_cdf(lgmet, e[:-1], scatter) - tw_cdf(lgmet, e[1:], scatter)
    s = c.sum()
    if s == 0:
        w = np.zeros(len(e) - 1)
        if lgmet < e[0]:
            w[0] = 1
        elif lgmet > e[-1]:
            w[-1] = 1
        return w, 1e-10
    return c / s, 1e-10 + 3e-15 / abs(s)


def lgmet_at_ages(t, lgmet_table, lg_age, t_obs):
    return np.interp(lgt_birth(t_obs, lg_age), np.log10(t), lgmet_table)


def met_table_weights(t, lgmet_table, scatter, ssp_lgmet, lg_age, t_obs):
    z = lgmet_at_ages(t, lgmet_table, lg_age, t_obs)
    cols = [met_weights(zz, scatter, ssp_lgmet)[0] for zz in z]
    return np.array(cols).T / len(lg_age)


# ---- cosmology
C_KMS = 299792.458
MPC_CM, YEAR_S = 3.08567758149e24, 31556925.2


def Ez(z, Om0, w0, wa):
    z = np.asarray(z, float)
    a = 1 / (1 + z)
    de = (1 - Om0) * a ** (-3 * (1 + w0 + wa)) * np.exp(-3 * wa * (1 - a))
    return np.sqrt(Om0 * (1 + z) ** 3 + de)


_GLX, _GLW = np.polynomial.legendre.leggauss(64)


def gl(f, a, b, pieces=8):
    """Gauss-Legendre reference integral (exact to rounding for these integrands)."""
    tot = 0.0
    edges = np.linspace(a, b, pieces + 1)
    for i in range(pieces):
        h = (edges[i + 1] - edges[i]) / 2
        m = (edges[i + 1] + edges[i]) / 2
        tot += h * np.sum(_GLW * f(m + h * _GLX))
    return tot


def gl_log(f, z1):
    """integral of f from 0 to z1, substituting u=ln(1+z)"""
    return gl(lambda u: f(np.expm1(u)) * np.exp(u), 0.0, np.log1p(z1))


def hubble_time_gyr(h):
    return 1e-16 * MPC_CM / YEAR_S / h


def bryan_norman(x):
    return 18 * np.pi**2 + 82 * x - 39 * x**2


# ---- sigmoids
def sigmoid(x, x0, k, lo, hi):
    x = np.asarray(x, float)
    a = k * (x - x0)
    with np.errstate(over="ignore"):
        s = np.where(a >= 0, 1 / (1 + np.exp(-np.abs(a))), np.exp(-np.abs(a)) / (1 + np.exp(-np.abs(a))))
    return lo + (hi - lo) * s


def inv_sigmoid(y, x0, k, lo, hi):
    return x0 - np.log((hi - lo) / (y - lo) - 1) / k


def sig_slope(x, xtp, ytp, x0, k, lo, hi):
    return ytp + sigmoid(x, x0, k, lo, hi) * (np.asarray(x, float) - xtp)


# ---- photometry
def band_ratio(wave, lum, fw, ft, z=0.0):
    fw, ft = np.asarray(fw, float), np.asarray(ft, float)
    L = interp0(fw, np.asarray(wave, float) * (1 + z), np.asarray(lum, float))
    num = trapz_v(fw, ft * L / fw)
    den = trapz_v(fw, ft * AB0 / fw)
    return num / den


def mag(r):
    with np.errstate(divide="ignore", invalid="ignore"):
        return -2.5 * np.log10(r)


# ---- dust
RV = 4.05


def k_c00(w):
    y = 1 / np.asarray(w, float)
    return np.where(w < 0.63,
                    2.659 * (-2.156 + 1.509 * y - 0.198 * y**2 + 0.011 * y**3) + RV,
                    2.659 * (-1.857 + 1.040 * y) + RV)


def k_l02(w):
    y = 1 / np.asarray(w, float)
    return 5.472 + 0.671 * y - 9.218e-3 * y**2 + 2.620e-3 * y**3


def drude(w, x0, g, amp):
    w = np.asarray(w, float)
    return amp * (w**2 * g**2) / ((w**2 - x0**2) ** 2 + w**2 * g**2)


def k_noll(w, amp, slope, x0=0.2175, g=0.035):
    base = np.where(np.asarray(w) > 0.15, k_c00(w), k_l02(w))
    k = (base + drude(w, x0, g, amp)) * (np.asarray(w, float) / 0.55) ** slope
    return np.maximum(k, 0)


def k_sbl(w, amp, slope, x0=0.2175, g=0.035):
    base = np.where(np.asarray(w) > 0.15, k_c00(w), k_l02(w))
    k = base * (np.asarray(w, float) / 0.55) ** slope + drude(w, x0, g, amp)
    return np.maximum(k, 0)


def k_tw(w, xtp=-1.0, ytp=1.15, x0=0.5, h=0.5, lo=-0.65, hi=-1.95):
    x = np.log10(w)
    return 10 ** (ytp + (lo + (hi - lo) * tw_cdf(x, x0, h)) * (x - xtp))


# ---- blackbody
HP, KB, CL, WLSUN = 6.62607015e-34, 1.380649e-23, 299792458.0, 3.828e26


def _bb_lg(x):
    """log of 1/(e^x - 1), stable"""
    x = np.asarray(x, float)
    with np.errstate(all="ignore"):
        return np.where(x > 1, -x - np.log1p(-np.exp(-x)), -np.log(np.expm1(x)))


def bb_nu(nu, T):
    nu, T = np.asarray(nu, float), np.asarray(T, float)
    return np.exp(np.log(2 * HP / CL**2) + 3 * np.log(nu) + _bb_lg(HP * nu / (KB * T))) / WLSUN


def bb_lam(wave_aa, T):
    lam = np.asarray(wave_aa, float) / 1e10
    T = np.asarray(T, float)
    return np.exp(np.log(2 * HP * CL**2) - 5 * np.log(lam) + _bb_lg(HP * CL / (KB * T * lam))) / WLSUN * 1e-10


# ---- bursts
def pureburst(lgyr, peak, mx):
    lo = peak - (mx - peak)
    w = tw_pdf(lgyr, 0.5 * (lo + mx), (mx - lo) / 6)
    s = w.sum()
    return w / s if s > 0 else w
