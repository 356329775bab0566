"""Packaged constants, default parameter sets, bounds and fake data: values, copies, relations, and independence from each other."""
import copy
import importlib
from collections.abc import Mapping, MutableMapping
import numpy as np
from mc.engine import Skip

BOUNDS = {"values": "every documented constant and default set x every module that exposes it",
          "inside_bounds": "every default parameter x its bounds; the unbounded defaults are the images of the bounded ones",
          "as_if_given": "every model with a default parameter set x its evaluation grid: omitted, given by position, given by keyword, given as a fresh copy",
          "independence": "every mutable parameter set x every entry changed x every other set and every model default",
          "isolation": "every public constant before and after every call of the catalogue",
          "fake_data": "every axis, every template and every filter of the fake data"}

IMF_S = dict(a=0.225, b=8.0, lgk1=-0.5, d=0.145, e=0.08, f=6.5, lgk2=0.7, h=0.005)
IMF_R = dict(a=-1.42, b=7, lgk1=1, d=1.3, e=0.2)
T0 = dict(mzr_t0_x0=10.5, mzr_t0_k=1, mzr_t0_slope_lo=0.4, mzr_t0_slope_hi=0.1)
EV = dict(c0_y_at_tlook_c=-1.455, c1_y_at_tlook_c=0.13, c0_early_time_slope=-0.959, c1_early_time_slope=0.067242)
TB = dict(mzr_t0_x0=(10.25, 10.75), mzr_t0_k=(0.5, 2), mzr_t0_slope_lo=(0.1, 1.0), mzr_t0_slope_hi=(0.0, 0.3))
EB = dict(c0_y_at_tlook_c=(-2.0, -1.0), c1_y_at_tlook_c=(0.0, 0.5), c0_early_time_slope=(-1.5, -0.5), c1_early_time_slope=(0.0, 0.5))
PL15, WM5, FS = (0.3075, -1.0, 0.0, 0.6774), (0.277, -1.0, 0.0, 0.702), (0.27, -1.0, 0.0, 0.72)

# (module, name, value); the relative tolerance leaves room for more digits of a measured constant, exact SI values are exact
VALUES = [
    ("constants", "SFR_MIN", 1e-14), ("utils", "SFR_MIN", 1e-14), ("sed.ssp_weights", "SFR_MIN", 1e-14), ("sed.stellar_age_weights", "SFR_MIN", 1e-14), ("sed.stellar_sed", "SFR_MIN", 1e-14),
    ("constants", "T_BIRTH_MIN", 0.001), ("utils", "T_BIRTH_MIN", 0.001), ("sed.stellar_age_weights", "T_BIRTH_MIN", 0.001), ("constants", "T_TABLE_MIN", 0.01),
    ("constants", "LGMET_LO", -10.0), ("constants", "LGMET_HI", 10.0), ("sed.metallicity_weights", "LGMET_LO", -10.0), ("sed.metallicity_weights", "LGMET_HI", 10.0),
    ("constants", "L_SUN_CGS", 3.828e33), ("data_loaders.load_ssp_data", "L_SUN_CGS", 3.828e33), ("data_loaders.retrieve_fake_fsps_data", "L_SUN_CGS", 3.828e33), ("dust.blackbody", "WATTS_PER_LSUN", 3.828e26),
    ("utils", "YEAR_PER_GYR", 1e9), ("cosmology.flat_wcdm", "C_SPEED", 299792458.0), ("dust.blackbody", "C_SPEED", 299792458.0), ("dust.blackbody", "H_PLANCK", 6.62607015e-34), ("dust.blackbody", "K_BOLTZ", 1.380649e-23),
    ("cosmology.flat_wcdm", "MPC", 3.08567758149e24), ("cosmology.flat_wcdm", "YEAR", 31556925.2), ("cosmology.flat_wcdm", "RHO_CRIT0_KPC3_UNITY_H", 277.536627),
    ("photometry.photometry_kernels", "AB0", 1.13492e-13),
    ("cosmology", "PLANCK15", PL15), ("cosmology", "WMAP5", WM5), ("cosmology", "FSPS_COSMO", FS), ("cosmology", "DEFAULT_COSMOLOGY", PL15), ("cosmology.defaults", "DEFAULT_COSMOLOGY", PL15),
    ("cosmology.flat_wcdm", "PLANCK15", PL15), ("cosmology.flat_wcdm", "WMAP5", WM5), ("cosmology.flat_wcdm", "FSPS_COSMO", FS),
    ("data_loaders", "DEFAULT_SSP_BNAME", "ssp_data_fsps_v3.2_lgmet_age.h5"), ("data_loaders.defaults", "DEFAULT_SSP_BNAME", "ssp_data_fsps_v3.2_lgmet_age.h5"),
    ("data_loaders", "DEFAULT_SSP_KEYS", ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux")),
    ("data_loaders.defaults", "DEFAULT_SSP_BNAME_EMLINES", "fsps_v0.4.7_mist_c3k_a_kroupa_wNE_logGasU-2.0_logGasZ0.0.h5"),
    ("dust.att_curves", "RV_C00", 4.05), ("dust.att_curves", "UV_BUMP_W0", 0.2175), ("dust.att_curves", "UV_BUMP_DW", 0.035),
    ("imf.surviving_mstar", "PARAMS", dict(x0=2, yhi=0.58)), ("imf.surviving_mstar", "DEFAULT_PARAMS", IMF_S), ("imf.surviving_mstar", "CHABRIER_PARAMS", IMF_S),
    ("imf.surviving_mstar", "SALPETER_PARAMS", dict(IMF_S, a=0.13, d=0.055)), ("imf.surviving_mstar", "KROUPA_PARAMS", dict(IMF_S, a=0.211, d=0.13)), ("imf.surviving_mstar", "VAN_DOKKUM_PARAMS", dict(IMF_S, a=0.238, d=0.156)),
    ("imf.remnant_mass", "DEFAULT_PARAMS", IMF_R), ("imf.remnant_mass", "CHABRIER_PARAMS", IMF_R), ("imf.remnant_mass", "SALPETER_PARAMS", dict(IMF_R, a=-1.67)),
    ("imf.remnant_mass", "KROUPA_PARAMS", dict(IMF_R, a=-1.45)), ("imf.remnant_mass", "VAN_DOKKUM_PARAMS", dict(IMF_R, a=-1.40)),
    ("metallicity.mzr", "LGMET_SOLAR", np.log10(0.012)), ("metallicity.umzr", "LGMET_SOLAR", np.log10(0.012)),
    ("metallicity.mzr", "MAIOLINO08_PARAMS", {0.07: (11.18, 9.04), 0.7: (11.57, 9.04), 2.2: (12.38, 8.99), 3.5: (12.76, 8.79), 3.51: (12.87, 8.90)}),
    ("metallicity.mzr", "MZR_EVOL_T0", 12.5), ("metallicity.mzr", "MZR_EVOL_K", 1.6), ("metallicity.umzr", "MZR_EVOL_T0", 12.5), ("metallicity.umzr", "MZR_EVOL_K", 1.6),
    ("metallicity.mzr", "MZR_T0_PDICT", dict(T0, mzr_t0_y0=0.05)), ("metallicity.mzr", "MZR_T0_PARAM_PBDICT", dict(TB, mzr_t0_y0=(-1.0, 0.25))),
    ("metallicity.mzr", "MZR_VS_T_PDICT", dict(EV, tlook_c=8.44)), ("metallicity.mzr", "MZR_SCATTER_PDICT", dict(mzr_scatter=0.1)), ("metallicity.mzr", "MZR_SCATTER_PBDICT", dict(mzr_scatter=(0.01, 0.5))),
    ("metallicity.mzr", "DEFAULT_MET_PDICT", dict(T0, mzr_t0_y0=0.05, tlook_c=8.44, mzr_scatter=0.1, **EV)),
    ("metallicity.mzr", "DEFAULT_MET_PARAMS", [0.05, 10.5, 1.0, 0.4, 0.1, -1.455, 0.13, 8.44, -0.959, 0.067242, 0.1]),
    ("metallicity.defaults", "DEFAULT_MET_PARAMS", [0.05, 10.5, 1.0, 0.4, 0.1, -1.455, 0.13, 8.44, -0.959, 0.067242, 0.1]),
    ("metallicity.umzr", "MZR_SCATTER", 0.1), ("metallicity.umzr", "MZR_T0_XTP", 10.5), ("metallicity.umzr", "MZR_DT_XTP", 8.44), ("metallicity.umzr", "TLOOK_C", 8.44),
    ("metallicity.umzr", "DEFAULT_MZR_PDICT", dict(T0, mzr_t0_ytp=0.05, **EV)), ("metallicity.umzr", "DEFAULT_MZR_PARAMS", (0.05, 10.5, 1, 0.4, 0.1, -1.455, 0.13, -0.959, 0.067242)),
    ("metallicity.umzr", "MZR_PBDICT", dict(TB, mzr_t0_ytp=(-1.0, 0.25), **EB)),
    ("metallicity.umzr", "MZR_T0_PDICT", dict(T0, mzr_t0_ytp=0.05)), ("metallicity.umzr", "MZR_TEVOL_PDICT", EV), ("metallicity.umzr", "MZR_T0_PBDICT", dict(TB, mzr_t0_ytp=(-1.0, 0.25))), ("metallicity.umzr", "MZR_TEVOL_PBDICT", EB),
    ("metallicity.umzr", "MZR_PBOUNDS", ((-1.0, 0.25), (10.25, 10.75), (0.5, 2), (0.1, 1.0), (0.0, 0.3), (-2.0, -1.0), (0.0, 0.5), (-1.5, -0.5), (0.0, 0.5))),
    ("sfh.diffburst", "DEFAULT_BURST_PARAMS", (-3.0, 5.5, 7.0)), ("sfh.diffburst", "DEFAULT_LGFBURST", -3.0), ("sfh.diffburst", "LGFBURST_MIN", -8.0), ("sfh.diffburst", "LGFBURST_MAX", -1.0),
    ("sfh.diffburst", "LGYR_PEAK_MIN", 5.0), ("sfh.diffburst", "LGYR_PEAK_MAX", 8.0), ("sfh.diffburst", "LGAGE_MAX", 9.0), ("sfh.diffburst", "DLGAGE_MIN", 1.0),
]
MUST = {("cosmology", n) for n in ("PLANCK15", "WMAP5", "FSPS_COSMO", "DEFAULT_COSMOLOGY")} | {("data_loaders", "DEFAULT_SSP_BNAME"), ("data_loaders", "DEFAULT_SSP_KEYS"), ("constants", "L_SUN_CGS"),
        ("metallicity.defaults", "DEFAULT_MET_PARAMS"), ("metallicity.umzr", "DEFAULT_MZR_PARAMS"), ("sfh.diffburst", "DEFAULT_BURST_PARAMS")}
EXACT = {"C_SPEED", "H_PLANCK", "K_BOLTZ"}


def mod(m):
    return importlib.import_module("dsps." + m)


def eq(a, b, rt=1e-9):
    """numbers agree to rt, structure and names agree; dictionaries of parameters may be stored in any order"""
    if isinstance(b, dict):
        return isinstance(a, Mapping) and set(a) == set(b) and all(eq(a[k], b[k], rt) for k in b)
    if isinstance(b, str):
        return a == b
    if isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(eq(x, y, rt) for x, y in zip(a, b))
    a, b = float(a), float(b)
    return abs(a - b) <= rt * abs(b)


def run(ctx):
    def values(c):
        m, n, v = VALUES[c.i]
        x = getattr(mod(m), n, None)
        if x is None:
            if (m, n) in MUST:
                return "%s.%s is missing" % (m, n)
            raise Skip
        ctx.outcome([m, n])
        rt = 0 if n in EXACT else 1e-5 if n in ("MPC", "YEAR", "AB0", "RHO_CRIT0_KPC3_UNITY_H") else 1e-9
        return None if eq(x, v, rt) else "%s.%s = %r, documented %r" % (m, n, x, v)
    ctx.product("values", dict(i=list(range(len(VALUES)))), values)

    mz, um, db = mod("metallicity.mzr"), mod("metallicity.umzr"), mod("sfh.diffburst")
    sm, rm = mod("imf.surviving_mstar"), mod("imf.remnant_mass")
    g = lambda m, n: getattr(m, n, None)

    def bounds(c):
        p = []
        need = {"umzr": (um, ("MZR_PBOUNDS", "DEFAULT_MZR_U_PARAMS")), "burst": (db, ("DEFAULT_BURST_U_PARAMS",))}.get(c.which)
        if need and any(g(need[0], n) is None for n in need[1]):
            raise Skip
        if c.which == "umzr":
            for n, v in um.DEFAULT_MZR_PARAMS._asdict().items():
                lo, hi = getattr(um.MZR_PBOUNDS, n)
                p.append(None if lo < v < hi else "%s outside its bounds" % n)
            b = um.get_bounded_mzr_params(um.DEFAULT_MZR_U_PARAMS)
            p.append(None if np.allclose(b, um.DEFAULT_MZR_PARAMS, rtol=1e-6) else "unbounded defaults map to %s" % (b,))
            u = um.get_unbounded_mzr_params(um.DEFAULT_MZR_PARAMS)
            p.append(None if np.allclose(u, um.DEFAULT_MZR_U_PARAMS, rtol=1e-6, atol=1e-6) else "defaults map to %s" % (u,))
        elif c.which == "mzr":
            pb, pd = g(mz, "MZR_T0_PARAM_PBDICT"), g(mz, "MZR_T0_PDICT")
            if pb is None or pd is None:
                raise Skip
            p += [None if pb[n][0] < pd[n] < pb[n][1] else "%s outside its bounds" % n for n in pd]
            p.append(None if list(mz.DEFAULT_MET_PDICT) and np.allclose(list(mz.DEFAULT_MET_PDICT.values()), mz.DEFAULT_MET_PARAMS, rtol=1e-12) else "array and dictionary of defaults differ")
        elif c.which == "burst":
            d = db.DEFAULT_BURST_PARAMS
            p.append(None if -8 < d.lgfburst < -1 and 5 < d.lgyr_peak < 8 and d.lgyr_peak + 1 < d.lgyr_max < 9 else "burst defaults outside the bounds")
            A = np.array([-3.0, -2.1, -1.0, 0.2, 0.9]) - 1.0
            s = np.full(5, 0.2)
            x, y = db.calc_bursty_age_weights(d, s, A), db.calc_bursty_age_weights_from_u_params(db.DEFAULT_BURST_U_PARAMS, s, A)
            p += [None if np.allclose(i, j, rtol=1e-6, atol=1e-12) else "bounded and unbounded burst defaults differ" for i, j in zip(np.atleast_2d(x), np.atleast_2d(y))]
        else:
            p.append(None if all(0 < q.Om0 < 1 and 0.5 < q.h < 1 for q in (mod("cosmology").PLANCK15, mod("cosmology").WMAP5, mod("cosmology").FSPS_COSMO)) else "cosmology")
        ctx.outcome(c.which)
        return p
    ctx.product("inside_bounds", dict(which=["umzr", "mzr", "burst", "cosmology"]), bounds)

    lgm = np.linspace(6.0, 12.5, 14)
    tt = np.array([0.5, 1.0, 3.0, 6.0, 9.0, 12.0, 12.5, 13.8])
    la = np.linspace(5.0, 10.3, 21)
    MODELS = {}
    names = "a b lgk1 d e f lgk2 h".split()
    for n in ("DEFAULT", "CHABRIER", "SALPETER", "KROUPA", "VAN_DOKKUM"):
        MODELS["surviving " + n] = (lambda n=n: (sm.surviving_mstar, (la,), getattr(sm, n + "_PARAMS")))
        MODELS["remnant " + n] = (lambda n=n: (rm.remnant_mass, (la,), getattr(rm, n + "_PARAMS")))
    evo = ("c0_y_at_tlook_c", "c1_y_at_tlook_c", "tlook_c", "c0_early_time_slope", "c1_early_time_slope")
    t0n = ("mzr_t0_y0", "mzr_t0_x0", "mzr_t0_k", "mzr_t0_slope_lo", "mzr_t0_slope_hi")
    MODELS["mzr"] = lambda: (mz.mzr_model, (lgm[:, None], tt[None, :]), {k: mz.DEFAULT_MET_PDICT[k] for k in t0n + evo})

    def given(c):
        f, a, d = MODELS[c.model]()
        want = np.asarray(f(*a, *d.values()))
        out = {"position": lambda: f(*a, *list(dict(d).values())), "keyword": lambda: f(*a, **d), "reversed": lambda: f(*a, **dict(reversed(list(d.items())))),
               "copy": lambda: f(*a, **copy.deepcopy(d)), "omitted": lambda: f(*a)}
        if c.how == "omitted" and ("DEFAULT" not in c.model and "CHABRIER" not in c.model):
            raise Skip
        if c.how == "omitted" and c.model == "mzr":
            raise Skip
        got = np.asarray(out[c.how]())
        ctx.outcome(want)
        return None if got.shape == want.shape and np.allclose(got, want, rtol=1e-12, atol=1e-300) else "differs by %g" % np.abs(got - want).max()
    ctx.product("as_if_given", dict(model=list(MODELS), how=["position", "keyword", "reversed", "copy", "omitted"]), given)

    SETS = [(m, n) for m, ns in ((sm, ("DEFAULT_PARAMS", "SALPETER_PARAMS", "CHABRIER_PARAMS", "KROUPA_PARAMS", "VAN_DOKKUM_PARAMS")),
                                 (rm, ("DEFAULT_PARAMS", "SALPETER_PARAMS", "CHABRIER_PARAMS", "KROUPA_PARAMS", "VAN_DOKKUM_PARAMS")),
                                 (mz, ("MZR_T0_PDICT", "MZR_T0_PARAM_PBDICT", "MZR_VS_T_PDICT", "MZR_SCATTER_PDICT", "MZR_SCATTER_PBDICT", "DEFAULT_MET_PDICT", "MAIOLINO08_PARAMS")), (um, ("MZR_T0_PDICT", "MZR_TEVOL_PDICT", "MZR_T0_PBDICT", "MZR_TEVOL_PBDICT", "DEFAULT_MZR_PDICT", "MZR_PBDICT"))) for n in ns if isinstance(g(m, n), MutableMapping)]
    probe = {"surviving": lambda: sm.surviving_mstar(la), "remnant": lambda: rm.remnant_mass(la), "mzr": lambda: mz.mzr_model(lgm, 5.0, *mz.DEFAULT_MET_PARAMS[:-1]),
             "umzr": lambda: um.mzr_model(lgm, 5.0, *um.DEFAULT_MZR_PARAMS) if hasattr(um, "mzr_model") else 0.0}
    base = {}

    def indep(c):
        m, n = SETS[c.i]
        d = getattr(m, n)
        if c.k >= len(d):
            raise Skip
        if not base:
            base.update({k: np.asarray(f()) for k, f in probe.items()})
        key = list(d)[c.k]
        snap = [copy.deepcopy(getattr(a, b)) for a, b in SETS]
        old = d[key]
        try:
            if c.how == "set":
                d[key] = tuple(7.0 + x for x in old) if isinstance(old, tuple) else 7.0 + old
            else:
                d.pop(key)
            p = ["changing %s[%r] changes %s" % (n, key, b) for (a, b), s in zip(SETS, snap) if getattr(a, b) is not d and getattr(a, b) != s]
            own = {sm: "surviving", rm: "remnant"}.get(m) if n in ("DEFAULT_PARAMS", "CHABRIER_PARAMS") else None
            for k, f in probe.items():
                if k == own:
                    continue
                q = np.asarray(f())
                if not np.array_equal(q, base[k]):
                    p.append("changing %s[%r] changes the default %s model" % (n, key, k))
        finally:
            d.clear()
            d.update(snap[c.i])
        ctx.outcome([n, key])
        return p
    ctx.product("independence", dict(i=list(range(len(SETS))), k=list(range(11)), how=["set", "pop"]), indep)

    # no call changes a constant
    from mc import menu
    M = menu.build()

    def snapshot():
        out = {}
        for m, n, _ in VALUES:
            x = getattr(mod(m), n, None)
            out[m, n] = repr(np.asarray(x).tolist() if hasattr(x, "dtype") else x)
        return out
    s0 = snapshot()

    def isolated(c):
        e = M[c.i]
        try:
            f = e.fn()
        except Exception:
            raise Skip
        if f is None:
            raise Skip
        try:
            r = f(*[copy.deepcopy(v) for v in e.f.values()])
        except (TypeError, AttributeError):
            raise Skip
        ctx.outcome([np.asarray(x) for x in menu.flat(r)][:1])
        s1 = snapshot()
        return ["%s changes %s.%s to %s" % (e.name, k[0], k[1], s1[k]) for k in s0 if s0[k] != s1[k]]
    ctx.product("isolation", dict(i=list(range(len(M)))), isolated)

    fk = mod("data_loaders.retrieve_fake_fsps_data")
    D = fk.load_fake_ssp_data()
    W = fk.load_fake_filter_transmission_curves()
    Z = [2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 25, 31, 39, 49, 61, 77, 96, 120, 150, 190, 240, 300]

    def fake(c):
        if c.what == "lgmet":
            if c.i >= 22:
                raise Skip
            return None if len(D.ssp_lgmet) == 22 and abs(D.ssp_lgmet[c.i] - np.log10(Z[c.i] * 1e-4)) < 1e-9 else "lgmet[%d] = %r" % (c.i, D.ssp_lgmet[c.i])
        if c.what == "age":
            if c.i >= 94:
                raise Skip
            return None if len(D.ssp_lg_age_gyr) == 94 and abs(D.ssp_lg_age_gyr[c.i] - (-3.5 + 0.05 * c.i)) < 1e-9 else "lg_age[%d] = %r" % (c.i, D.ssp_lg_age_gyr[c.i])
        if c.what == "wave":
            x = 100 + (20000 - 100) * np.arange(1963) / 1962
            return None if len(D.ssp_wave) == 1963 and np.allclose(D.ssp_wave[c.i::94], x[c.i::94], rtol=1e-12) else "wavelengths"
        if c.what == "plaw":
            if c.i >= 94:
                raise Skip
            f = np.log10(D.ssp_flux[:, c.i])
            q = np.log10(D.ssp_wave)
            s = (f[:, -1:] - f[:, :1]) / (q[-1] - q[0])
            return None if f.shape == (22, 1963) and np.allclose(f, f[:, :1] + s * (q - q[0]), atol=1e-9) else "template is not a power law"
        if c.i >= 6:
            raise Skip
        cen, wid, amp = [(3.57, 0.022, 80), (3.68, 0.04, 20), (3.79, 0.03, 25), (3.875, 0.025, 30), (3.935, 0.017, 47), (3.985, 0.017, 85)][c.i]
        x = np.log10(np.linspace(100, 20000, 1963))
        y = np.exp(-0.5 * ((x - cen) / wid) ** 2) / wid / np.sqrt(2 * np.pi) / amp
        return None if np.allclose(W[1 + c.i], y, rtol=1e-9, atol=1e-12) and np.allclose(W[0], 10 ** x, rtol=1e-12) else "band %d" % c.i
    ctx.product("fake_data", dict(what=["lgmet", "age", "wave", "plaw", "band"], i=list(range(94))), fake)
