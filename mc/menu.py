"""Catalogue of the package's numerical functions with argument sets.

Each entry: name, (module, attribute), and argument sets
  f : ordinary floating-point arguments             (used by C20, C21, C24)
  i : arguments whose every value is an integer representable in int32 and float32 (C22), or None
Arguments are an ordered dict name -> numpy array | python float.
`kw` names are passed by keyword.
"""
import importlib
from collections import OrderedDict as OD

import numpy as np
from mc.engine import same_call


class Entry:
    def __init__(self, name, mod, attr, f, i=None, kw=(), grad=True, wrap=None, nodiff=(), pick=None, private=False):
        self.name, self.mod, self.attr, self.f, self.i, self.kw, self.grad, self.wrap = name, mod, attr, f, i, kw, grad, wrap
        self.nodiff, self.pick, self.private = set(nodiff), pick, private

    def fn(self):
        g = getattr(importlib.import_module(self.mod), self.attr, None)
        if g is None or not same_call(g, self.mod + "." + self.attr):
            return None
        if self.wrap:
            return self.wrap(g)
        names = list(self.f)
        kw = self.kw

        def call(*a):
            d = dict(zip(names, a))
            k = {n: d.pop(n) for n in kw}
            return g(*d.values(), **k)
        return call


def flat(x):
    """any result -> list of numpy arrays (leaf order)"""
    import jax
    return [np.asarray(v) for v in jax.tree_util.tree_leaves(x)]


T, S = np.array([1.0, 3.0, 6.0, 13.0]), np.array([2.0, 5.0, 1.0, 0.5])
TI, SI = np.array([1.0, 3.0, 6.0, 13.0]), np.array([2.0, 5.0, 0.0, 4.0])
A, AI = np.array([-3.0, -2.1, -1.0, 0.2, 0.9]), np.array([-3.0, -2.0, -1.0, 0.0, 1.0])
Z, ZI = np.array([-3.5, -2.7, -2.0, -1.6]), np.array([-5.0, -4.0, -3.0, -2.0])
ZH, ZHI = np.array([-3.1, -2.6, -2.2, -1.8]), np.array([-5.0, -4.0, -3.0, -2.0])


def F(nm, na, nw):
    i, j, k = np.meshgrid(np.arange(nm), np.arange(na), np.arange(nw), indexing="ij")
    return 1.0 + (3 * i + 2 * j + 5 * k) % 7


W = np.linspace(3000.0, 9000.0, 7)
L = np.array([1.0, 2.0, 4.0, 3.0, 5.0, 1.0, 2.0])
FW, FT = np.array([4200.0, 5000.0, 5600.0, 6500.0, 7300.0]), np.array([0.1, 0.7, 1.0, 0.6, 0.05])
FWI, FTI = np.array([4000.0, 5000.0, 5600.0, 6500.0, 7000.0]), np.array([0.0, 1.0, 2.0, 1.0, 0.0])
C, CI = OD(Om0=0.31, w0=-0.95, wa=0.1, h=0.68), OD(Om0=1.0, w0=-1.0, wa=0.0, h=1.0)
WM, WMI = np.array([0.12, 0.151, 0.22, 0.55, 1.3]), np.array([1.0, 2.0])
ARR = np.array


def build():
    E = []

    def add(*a, **k):
        E.append(Entry(*a, **k))
    sed = "dsps.sed"
    add("age_weights", sed, "calc_age_weights_from_sfh_table", OD(t=T, sfr=S, age=A, t_obs=10.0, sfr_min=1e-3), OD(t=TI, sfr=SI, age=AI, t_obs=12.0, sfr_min=1.0), kw=("sfr_min",))
    add("met_weights", sed, "calc_lgmet_weights_from_lognormal_mdf", OD(lgmet=-2.3, scat=0.25, Z=Z), OD(lgmet=-3.0, scat=1.0, Z=ZI))
    add("met_weights_table", sed, "calc_lgmet_weights_from_lgmet_table", OD(t=T, lgmet=ZH, scat=0.25, Z=Z, age=A, t_obs=10.0), OD(t=TI, lgmet=ZHI, scat=1.0, Z=ZI, age=AI, t_obs=12.0))
    add("ssp_weights_mdf", sed, "calc_ssp_weights_sfh_table_lognormal_mdf", OD(t=T, sfr=S, lgmet=-2.3, scat=0.25, Z=Z, age=A, t_obs=10.0), OD(t=TI, sfr=SI, lgmet=-3.0, scat=1.0, Z=ZI, age=AI, t_obs=12.0))
    add("ssp_weights_table", sed, "calc_ssp_weights_sfh_table_met_table", OD(t=T, sfr=S, lgmet=ZH, scat=0.25, Z=Z, age=A, t_obs=10.0), OD(t=TI, sfr=SI, lgmet=ZHI, scat=1.0, Z=ZI, age=AI, t_obs=12.0))
    add("rest_sed_mdf", sed, "calc_rest_sed_sfh_table_lognormal_mdf", OD(t=T, sfr=S, lgmet=-2.3, scat=0.25, Z=Z, age=A, flux=F(4, 5, 3) * 1e-3, t_obs=10.0, sfr_min=1e-3),
        OD(t=TI, sfr=SI, lgmet=-3.0, scat=1.0, Z=ZI, age=AI, flux=F(4, 5, 3), t_obs=12.0, sfr_min=1.0), kw=("sfr_min",))
    add("rest_sed_table", sed, "calc_rest_sed_sfh_table_met_table", OD(t=T, sfr=S, lgmet=ZH, scat=0.25, Z=Z, age=A, flux=F(4, 5, 3) * 1e-3, t_obs=10.0),
        OD(t=TI, sfr=SI, lgmet=ZHI, scat=1.0, Z=ZI, age=AI, flux=F(4, 5, 3), t_obs=12.0))
    pk = "dsps.photometry.photometry_kernels"
    add("rest_mag", pk, "calc_rest_mag", OD(w=W, l=L, fw=FW, ft=FT), OD(w=W, l=L, fw=FWI, ft=FTI))
    add("rest_flux", pk, "calc_rest_flux", OD(w=W, l=L, fw=FW, ft=FT), OD(w=W, l=L, fw=FWI, ft=FTI))
    add("obs_mag", pk, "calc_obs_mag", OD(w=W, l=L, fw=FW, ft=FT, z=0.35, **C), OD(w=W / 2, l=L, fw=FWI, ft=FTI, z=1.0, **CI))
    pp = "dsps.photometry.photpop"
    add("tab_obs", pp, "precompute_ssp_obsmags_on_z_table", OD(w=W, f=F(2, 3, 7), fw=np.stack([FW, FW + 300]), ft=np.stack([FT, FT[::-1]]), z=ARR([0.1, 0.4]), **C),
        OD(w=W / 2, f=F(2, 3, 7), fw=np.stack([FWI, FWI + 300]), ft=np.stack([FTI, FTI + 1]), z=ARR([1.0, 1.0]), **CI))
    add("tab_rest", pp, "precompute_ssp_restmags", OD(w=W, f=F(2, 3, 7), fw=np.stack([FW, FW + 300]), ft=np.stack([FT, FT[::-1]])),
        OD(w=W, f=F(2, 3, 7), fw=np.stack([FWI, FWI + 300]), ft=np.stack([FTI, FTI + 1])))
    add("tab_kcorr", pp, "precompute_ssp_restmags_z_kcorrect", OD(w=W, f=F(2, 3, 7), fw=np.stack([FW, FW + 300]), ft=np.stack([FT, FT[::-1]]), zk=0.1),
        OD(w=W / 2, f=F(2, 3, 7), fw=np.stack([FWI, FWI + 300]), ft=np.stack([FTI, FTI + 1]), zk=1.0))
    co = "dsps.cosmology.flat_wcdm"
    for n in ("comoving_distance_to_z", "luminosity_distance_to_z", "angular_diameter_distance_to_z", "distance_modulus_to_z", "lookback_to_z", "rho_crit",
              "differential_comoving_volume_at_z", "virial_dynamical_time", "age_at_z"):
        add(n, co, n, OD(z=0.7, **C), OD(z=2.0, **CI))
    for n in ("comoving_distance", "luminosity_distance", "angular_diameter_distance", "distance_modulus", "lookback_time", "differential_comoving_volume", "virial_dynamical_time", "age_at_z", "rho_crit"):
        add(n + "_arr", co, n, OD(z=ARR([0.3, 1.7, 6.0]), **C), OD(z=ARR([1.0, 2.0, 7.0]), **CI))
    add("age_at_z0", co, "age_at_z0", OD(**C), OD(**CI))
    add("hubble_distance", co, "hubble_distance_mpc", OD(h=0.7), OD(h=2.0))
    at = "dsps.dust.att_curves"
    add("calzetti", at, "calzetti00_att_curve", OD(w=WM, av=1.3), OD(w=WMI, av=2.0))
    add("leitherer", at, "leitherer02_att_curve", OD(w=WM, av=1.3), OD(w=WMI, av=2.0))
    add("noll", at, "noll09_k_att_curve", OD(w=WM, av=1.3, ampl=2.5, slope=-0.3), OD(w=WMI, av=2.0, ampl=3.0, slope=-1.0))
    add("noll_kw", at, "noll09_k_att_curve", OD(w=WM, av=1.3, ampl=2.5, slope=-0.3, uv_bump=0.22, uv_bump_width=0.04), OD(w=WMI, av=2.0, ampl=3.0, slope=1.0, uv_bump=1.0, uv_bump_width=1.0), kw=("uv_bump", "uv_bump_width"))
    add("sbl18", at, "sbl18_k_att_curve", OD(w=WM, av=1.3, ampl=2.5, slope=-0.3), OD(w=WMI, av=2.0, ampl=3.0, slope=-1.0))
    add("noll_k", at, "noll09_k_lambda", OD(w=WM, ampl=2.5, slope=-0.3), OD(w=WMI, ampl=3.0, slope=-1.0))
    add("sbl18_k", at, "sbl18_k_lambda", OD(w=WM, ampl=2.5, slope=-0.3), OD(w=WMI, ampl=3.0, slope=-1.0))
    add("calzetti_k", at, "calzetti00_k_lambda", OD(w=WM), OD(w=WMI))
    add("leitherer_k", at, "leitherer02_k_lambda", OD(w=WM), OD(w=WMI))
    add("vband_norm", at, "power_law_vband_norm", OD(w=WM, slope=-0.3), OD(w=WMI, slope=-1.0))
    add("triweight_k", at, "triweight_k_lambda", OD(w=WM, xtp=-0.9, ytp=1.1, x0=0.4, tw_h=0.5, lo=-0.6, hi=-1.8), OD(w=WMI, xtp=-1.0, ytp=1.0, x0=0.0, tw_h=1.0, lo=-1.0, hi=-2.0))
    add("frac_trans", at, "_frac_transmission_from_k_lambda", OD(k=ARR([8.0, 4.05, 2.0]), av=0.7, floor=0.1), OD(k=ARR([8.0, 4.0, 2.0]), av=2.0, floor=0.0), private=True)
    add("eff_wave", "dsps.dust.utils", "get_filter_effective_wavelength", OD(fw=FW, ft=FT, z=0.4), OD(fw=FWI, ft=FTI, z=1.0))
    bb = "dsps.dust.blackbody"
    add("bb_freq", bb, "blackbody_freq_density", OD(nu=ARR([3e13, 2e14, 6e14]), t=5778.0), OD(nu=ARR([2.0**27, 2.0**29, 2.0**30]), t=3.0))
    add("bb_wave", bb, "blackbody_wave_density", OD(w=ARR([3000.0, 5500.0, 20000.0]), t=5778.0), OD(w=ARR([3000.0, 5500.0, 20000.0]), t=6000.0))
    ew = "dsps.em_lines.equivalent_width"
    lw = 5000.0 + 4.0 * np.arange(24)
    lf = 3.0 + 0.02 * (np.arange(24) - 11) + 2.0 * np.exp(-0.5 * ((np.arange(24) - 12) / 1.5) ** 2)
    win = dict(a=5034.0, m=5048.5, b=5062.0, c=5001.0, d=5026.0, e=5069.0, g=5091.0)
    wini = dict(a=5036.0, m=5048.0, b=5060.0, c=5000.0, d=5028.0, e=5068.0, g=5092.0)
    add("ew", ew, "_ew_kernel", OD(w=lw, f=lf, **win), OD(w=lw, f=10.0 + (np.arange(24) == 12) * 5.0 + np.arange(24) % 3, **wini), nodiff=("w", "a", "b", "c", "d", "e", "g"), private=True)
    add("line_decomp", ew, "_continuum_line_decomp_kern", OD(w=lw, f=lf, **win), OD(w=lw, f=10.0 + (np.arange(24) == 12) * 5.0 + np.arange(24) % 3, **wini), nodiff=("w", "a", "b", "c", "d", "e", "g"), private=True,
        pick=lambda o: o[:3])
    add("surviving", "dsps.imf.surviving_mstar", "surviving_mstar", OD(x=ARR([6.0, 7.7, 9.9])), OD(x=ARR([6.0, 8.0, 10.0])))
    add("surviving_kw", "dsps.imf.surviving_mstar", "surviving_mstar", OD(x=ARR([6.0, 7.7, 9.9]), a=0.2, b=8.0, lgk1=-0.5, d=0.14, e=0.08, f=6.5, lgk2=0.7, h=0.005),
        OD(x=ARR([6.0, 8.0, 10.0]), a=1.0, b=8.0, lgk1=-1.0, d=1.0, e=2.0, f=6.0, lgk2=-1.0, h=0.0), kw=("a", "b", "lgk1", "d", "e", "f", "lgk2", "h"))
    add("remnant", "dsps.imf.remnant_mass", "remnant_mass", OD(x=ARR([6.0, 7.7, 9.9])), OD(x=ARR([6.0, 8.0, 10.0])))
    add("remnant_kw", "dsps.imf.remnant_mass", "remnant_mass", OD(x=ARR([6.0, 7.7, 9.9]), a=-1.4, b=7.0, lgk1=0.9, d=1.3, e=0.2), OD(x=ARR([6.0, 8.0, 10.0]), a=-1.0, b=7.0, lgk1=-1.0, d=1.0, e=0.0), kw=("a", "b", "lgk1", "d", "e"))
    mp = OD(y0=0.05, x0=10.4, k=1.1, lo=0.4, hi=0.1, c0=-1.4, c1=0.12, tc=8.3, e0=-0.95, e1=0.06)
    mpi = OD(y0=1.0, x0=10.0, k=1.0, lo=1.0, hi=0.0, c0=-2.0, c1=0.0, tc=8.0, e0=-1.0, e1=0.0)
    up = OD((k, v) for k, v in mp.items() if k != "tc")
    upi = OD((k, v) for k, v in mpi.items() if k != "tc")
    add("mzr", "dsps.metallicity.mzr", "mzr_model", OD(m=ARR([8.2, 10.1, 11.3]), t=6.2, **mp), OD(m=ARR([8.0, 10.0, 11.0]), t=6.0, **mpi))
    add("umzr", "dsps.metallicity.umzr", "mzr_model", OD(m=ARR([8.2, 10.1, 11.3]), t=6.2, **up), OD(m=ARR([8.0, 10.0, 11.0]), t=6.0, **upi))
    for mm, q, qi in (("mzr", mp, mpi), ("umzr", up, upi)):
        t0 = [n for n in ("y0", "x0", "k", "lo", "hi")]
        ev = [n for n in q if n not in t0]
        add(mm + "_t0", "dsps.metallicity." + mm, "mzr_model_t0", OD(m=ARR([8.2, 10.1, 11.3]), **{n: q[n] for n in t0}), OD(m=ARR([8.0, 10.0, 11.0]), **{n: qi[n] for n in t0}))
        add(mm + "_evol", "dsps.metallicity." + mm, "mzr_evolution_model", OD(m=ARR([8.2, 10.1, 11.3]), t=6.2, **{n: q[n] for n in ev}), OD(m=ARR([8.0, 10.0, 11.0]), t=6.0, **{n: qi[n] for n in ev}))
    add("maiolino", "dsps.metallicity.mzr", "maiolino08_metallicity_evolution", OD(m=ARR([8.2, 10.1]), m0=11.2, k0=9.04), OD(m=ARR([8.0, 10.0]), m0=11.0, k0=9.0))

    def wb(g):
        from dsps.metallicity import umzr
        return lambda *u: tuple(g(umzr.MZRUParams(*u)))

    def wu(g):
        from dsps.metallicity import umzr
        return lambda *u: tuple(g(umzr.MZRParams(*u)))
    un = ["ytp", "x0", "k", "lo", "hi", "c0", "c1", "e0", "e1"]
    add("mzr_bounded", "dsps.metallicity.umzr", "get_bounded_mzr_params", OD(zip(un, [1.0, 9.0, -2.0, 3.0, -4.0, 5.0, -6.0, 7.0, 0.5])), OD(zip(un, [1.0, 9.0, -2.0, 3.0, -4.0, 5.0, -6.0, 7.0, 0.0])), wrap=wb)
    add("mzr_unbounded", "dsps.metallicity.umzr", "get_unbounded_mzr_params", OD(zip(un, [0.05, 10.5, 1.1, 0.4, 0.1, -1.4, 0.13, -0.95, 0.06])), None, wrap=wu)
    db = "dsps.sfh.diffburst"
    sm = ARR([0.1, 0.2, 0.3, 0.25, 0.15])

    def w1(g):
        from dsps.sfh import diffburst as D
        return lambda fb, pk, mx, s, a: g(D.BurstParams(fb, pk, mx), s, a)

    def w2(g):
        from dsps.sfh import diffburst as D
        return lambda fb, pk, mx, s, a: g(D.BurstUParams(fb, pk, mx), s, a)
    add("burst", db, "calc_bursty_age_weights", OD(fb=-2.2, pk=6.3, mx=8.1, s=sm, a=A), OD(fb=-2.0, pk=6.0, mx=8.0, s=ARR([1.0, 2.0, 3.0, 2.0, 1.0]), a=AI), wrap=w1)
    add("burst_u", db, "calc_bursty_age_weights_from_u_params", OD(fb=-2.2, pk=6.3, mx=8.1, s=sm, a=A), OD(fb=-2.0, pk=6.0, mx=8.0, s=ARR([1.0, 2.0, 3.0, 2.0, 1.0]), a=AI), wrap=w2)
    ut = "dsps.utils"
    add("cumtrapz", ut, "cumtrapz", OD(x=T, y=S), OD(x=TI, y=SI))
    add("trapz", ut, "trapz", OD(x=T, y=S), OD(x=TI, y=SI))
    add("cum_mstar", ut, "cumulative_mstar_formed", OD(t=T, sfr=S), OD(t=TI, sfr=SI))
    add("tw_hist", ut, "triweighted_histogram", OD(x=ARR([0.1, 1.3]), sig=0.4, bins=ARR([-1.0, 0.2, 0.9, 2.0])), OD(x=ARR([0.0, 1.0]), sig=1.0, bins=ARR([-1.0, 0.0, 1.0, 3.0])))
    add("tw_gauss", ut, "triweight_gaussian", OD(x=ARR([0.1, 1.3]), m=0.2, h=0.6), OD(x=ARR([0.0, 1.0]), m=0.0, h=1.0))
    add("plaw_pdf", ut, "powerlaw_pdf", OD(x=ARR([1.5, 3.0]), a=1.0, b=4.0, g=-1.35), OD(x=ARR([2.0, 3.0]), a=1.0, b=4.0, g=-2.0))

    def w3(g):
        import jax
        return lambda a, b, gg: g(jax.random.PRNGKey(3), a, b, gg)
    add("plaw_rvs", ut, "powerlaw_rvs", OD(a=ARR([1.0, 2.0]), b=ARR([4.0, 5.0]), g=ARR([-1.35, 0.7])), OD(a=ARR([1.0, 2.0]), b=ARR([4.0, 5.0]), g=ARR([-2.0, 3.0])), wrap=w3)
    return E
