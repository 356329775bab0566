"""The documented call interface: names, order, defaults, exports and result records."""
import importlib
import itertools
import json
import os
import tempfile
import numpy as np
from mc import menu
from mc.engine import VERIF, Skip

SIG = json.load(open(os.path.join(VERIF, "mc", "public_sigs.json")))
BOUNDS = {"call_forms": "every public function x number of leading positional arguments x order of the keyword arguments (rotations, transpositions, all permutations of up to 4 (thorough 5))",
          "defaults": "every public function with optional arguments x every subset of them given explicitly, by keyword and (for prefixes) by position",
          "exports": "every documented (package, name) pair, imported by `from ... import`, by attribute and by star-import; the default constants",
          "records": "every public record type x construction (position, keyword, iterable, replacement) and every function returning a record",
          "file_forms": "every argument form of the loaders and of the filter utilities"}

# where documentation, notebooks and the package's __init__ files promise each name
EXPORTS = {
    "dsps": {"SSPData": "data_loaders.defaults", "load_ssp_templates": "data_loaders.load_ssp_data", "load_transmission_curve": "data_loaders.load_filter_data",
             "calc_obs_mag": "photometry.photometry_kernels", "calc_rest_mag": "photometry.photometry_kernels",
             "calc_rest_sed_sfh_table_lognormal_mdf": "sed.stellar_sed", "calc_rest_sed_sfh_table_met_table": "sed.stellar_sed",
             "calc_ssp_weights_sfh_table_lognormal_mdf": "sed.ssp_weights", "calc_ssp_weights_sfh_table_met_table": "sed.ssp_weights",
             "calc_age_weights_from_sfh_table": "sed.stellar_age_weights", "calc_lgmet_weights_from_lognormal_mdf": "sed.metallicity_weights",
             "calc_lgmet_weights_from_lgmet_table": "sed.metallicity_weights", "cumulative_mstar_formed": "utils"},
    "dsps.sed": {"calc_rest_sed_sfh_table_lognormal_mdf": "sed.stellar_sed", "calc_rest_sed_sfh_table_met_table": "sed.stellar_sed",
                 "calc_ssp_weights_sfh_table_lognormal_mdf": "sed.ssp_weights", "calc_ssp_weights_sfh_table_met_table": "sed.ssp_weights",
                 "calc_age_weights_from_sfh_table": "sed.stellar_age_weights", "calc_lgmet_weights_from_lognormal_mdf": "sed.metallicity_weights",
                 "calc_lgmet_weights_from_lgmet_table": "sed.metallicity_weights"},
    "dsps.photometry": {"calc_obs_mag": "photometry.photometry_kernels", "calc_rest_mag": "photometry.photometry_kernels"},
    "dsps.data_loaders": {"SSPData": "data_loaders.defaults", "load_ssp_templates": "data_loaders.load_ssp_data", "load_transmission_curve": "data_loaders.load_filter_data",
                          "retrieve_ssp_data_from_fsps": "data_loaders.retrieve_fsps_data"},
    "dsps.cosmology": {n: "cosmology.flat_wcdm" for n in ("comoving_distance_to_z", "luminosity_distance_to_z", "distance_modulus_to_z", "angular_diameter_distance_to_z",
                                                          "lookback_to_z", "age_at_z0", "age_at_z", "rho_crit", "virial_dynamical_time", "CosmoParams", "PLANCK15", "WMAP5", "FSPS_COSMO")},
    "dsps.dust": {"blackbody_freq_density": "dust.blackbody", "blackbody_wave_density": "dust.blackbody"},
}
EXPORTS["dsps.cosmology"].update(DEFAULT_COSMOLOGY="cosmology.defaults", TODAY="cosmology.defaults")


def get(mod, attr):
    g = getattr(importlib.import_module(mod), attr, None)
    if g is None:
        raise AttributeError("%s.%s does not exist" % (mod, attr))
    return g


def same(a, b, what):
    a, b = menu.flat(a), menu.flat(b)
    if len(a) != len(b):
        return "%s: %d outputs, expected %d" % (what, len(a), len(b))
    for k, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape:
            return "%s: output %d has shape %s, expected %s" % (what, k, x.shape, y.shape)
        x, y = x.astype(float), y.astype(float)
        sc = np.abs(y[np.isfinite(y)]).max() if np.isfinite(y).any() else 1.0
        with np.errstate(invalid="ignore"):
            ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= 1e-12 * np.abs(y) + 1e-13 * sc)
        if not ok.all():
            j = tuple(np.argwhere(~ok)[0])
            return "%s: output %d%s = %r, expected %r" % (what, k, list(map(int, j)), float(x[j]), float(y[j]))
    return None


def functions():
    """(module, attribute, argument values by pinned name): required ones always, optional ones at non-default values"""
    best = {}
    for e in menu.build():
        key = e.mod + "." + e.attr
        if key not in SIG or e.private:
            continue
        names = [n for n, _ in SIG[key]]
        if e.wrap:
            continue
        pos = [n for n in e.f if n not in e.kw]
        d = dict(zip(names, [e.f[n] for n in pos]))
        d.update({k: e.f[k] for k in e.kw})
        if key not in best or len(d) > len(best[key][2]):
            best[key] = (e.mod, e.attr, d)
    # distinguishable, non-default values of every optional argument
    import jax
    ut, db, mz = "dsps.utils", "dsps.sfh.diffburst", "dsps.metallicity.umzr"
    D = importlib.import_module(db)
    U = importlib.import_module(mz)
    A = np.array([-3.0, -2.1, -1.0, 0.2, 0.9])
    sm = np.array([0.1, 0.2, 0.3, 0.25, 0.15])
    un = [1.0, 9.0, -2.0, 3.0, -4.0, 5.0, -6.0, 7.0, 0.5]
    pn = [0.05, 10.5, 1.1, 0.4, 0.1, -1.4, 0.13, -0.95, 0.06]
    best["b1"] = (db, "calc_bursty_age_weights", dict(burst_params=D.BurstParams(-2.2, 6.3, 8.1), smooth_age_weights=sm, ssp_lg_age_gyr=A))
    best["b2"] = (db, "calc_bursty_age_weights_from_u_params", dict(u_burst_params=D.BurstUParams(-2.2, 6.3, 8.1), smooth_age_weights=sm, ssp_lg_age_gyr=A))
    best["m1"] = (mz, "get_bounded_mzr_params", dict(u_params=U.MZRUParams(*un)))
    best["m2"] = (mz, "get_unbounded_mzr_params", dict(params=U.MZRParams(*pn)))
    best["r1"] = (ut, "powerlaw_rvs", dict(ran_key=jax.random.PRNGKey(3), a=np.array([1.0, 2.0]), b=np.array([4.0, 5.0]), g=np.array([-1.35, 0.7])))
    best["r2"] = (mz, "get_ran_t0_params", dict(ran_key=jax.random.PRNGKey(5)))
    best["f1"] = ("dsps.photometry.utils", "interpolate_filter_trans_curves",
                  dict(wave_filters=[np.linspace(1e3, 2e3, 9), np.linspace(3e3, 5e3, 12)], trans_filters=[np.linspace(0.1, 1, 9), np.linspace(0.9, 0.2, 12)], n=7))
    best["f2"] = ("dsps.data_loaders.load_filter_data", "load_random_transmission_curve", dict(ran_key=jax.random.PRNGKey(1), tcurve_center=5000.0, wave_range=(2000.0, 8000.0), scale=250.0))
    OPT = {"dsps.photometry.utils.interpolate_filter_trans_curves": dict(n=9),
           "dsps.data_loaders.load_filter_data.load_random_transmission_curve": None}
    out = []
    for mod, attr, d in best.values():
        key = mod + "." + attr
        if "sfr_min" in d or any(n == "sfr_min" for n, _ in SIG.get(key, [])):
            d["sfr_min"] = 0.8          # above the lowest rate of the table: the floor matters
        dfl = OPT[key] if key in OPT else {n: v for n, v in SIG.get(key, []) if v is not None}
        if dfl:
            for n, v in dfl.items():
                if d.get(n, v) == v:
                    d[n] = v * 1.125 + (0.01 if v == 0 else 0.0)
        out.append((mod, attr, d, dfl or {}))
    return out


MEMO = {}


def ref(mod, attr, d):
    """the all-positional call"""
    k = mod, attr
    if k not in MEMO:
        MEMO[k] = get(mod, attr)(*d.values())
    return MEMO[k]


def forms(mod, attr, d, k, order):
    def thunk():
        g = get(mod, attr)
        names = list(d)
        r = ref(mod, attr, d)
        rest = [names[j] for j in order]
        got = g(*[d[n] for n in names[:k]], **{n: d[n] for n in rest})
        p = same(got, r, "%d positional, then %s" % (k, ", ".join(rest)))
        if type(got) is not type(r):
            p = p or "returns %s, the positional call %s" % (type(got).__name__, type(r).__name__)
        return p, menu.flat(got)
    return thunk


def defaults(mod, attr, d, dfl, given, by_pos):
    def thunk():
        g = get(mod, attr)
        full = {n: (d[n] if n in given or n not in dfl else dfl[n]) for n in d}
        want = g(*full.values())
        req = [d[n] for n in d if n not in dfl]
        got = g(*req, *[d[n] for n in given]) if by_pos else g(*req, **{n: d[n] for n in given})
        p = same(got, want, "with %s omitted" % (", ".join(n for n in dfl if n not in given) or "nothing"))
        if p is None and len(given) == 1 and same(got, g(*req), "") is None:
            p = "%s=%r has no effect" % (given[0], d[given[0]])
        return p, menu.flat(got)
    return thunk


def export(pkg, name, home, how):
    def thunk():
        base = get("dsps." + home, name)
        if how == "from":
            ns = {}
            exec("from %s import %s as x" % (pkg, name), ns)
            v = ns["x"]
        elif how == "attribute":
            v = getattr(importlib.import_module(pkg), name)
        else:
            ns = {}
            exec("from %s import *" % pkg, ns)
            if name not in ns:
                return "`from %s import *` does not give %s" % (pkg, name)
            v = ns[name]
        if v is base:
            return None, [pkg, name]
        if isinstance(base, type):
            return "%s.%s is not the %s that the functions return" % (pkg, name, name)
        if callable(base):
            key = "dsps.%s.%s" % (home, name)
            for mod, attr, d, _ in functions():
                if attr == name and (mod == "dsps." + home or mod == "dsps.sed"):
                    return same(v(*d.values()), base(*d.values()), "%s.%s" % (pkg, name)), [pkg, name]
            return "%s.%s is not %s" % (pkg, name, key)
        return same(v, base, "%s.%s" % (pkg, name)), [pkg, name]
    return thunk


RECORDS = {("dsps.data_loaders.defaults", "SSPData"): ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux", "ssp_emline_wave", "ssp_emline_luminosity"),
           ("dsps.data_loaders.defaults", "TransmissionCurve"): ("wave", "transmission"),
           ("dsps.cosmology.flat_wcdm", "CosmoParams"): ("Om0", "w0", "wa", "h"),
           ("dsps.sfh.diffburst", "BurstParams"): ("lgfburst", "lgyr_peak", "lgyr_max"),
           ("dsps.sfh.diffburst", "BurstUParams"): ("u_lgfburst", "u_lgyr_peak", "u_lgyr_max"),
           ("dsps.metallicity.umzr", "MZRUParams"): ("u_mzr_t0_ytp", "u_mzr_t0_x0", "u_mzr_t0_k", "u_mzr_t0_slope_lo", "u_mzr_t0_slope_hi", "u_c0_y_at_tlook_c", "u_c1_y_at_tlook_c", "u_c0_early_time_slope", "u_c1_early_time_slope"),
           ("dsps.metallicity.umzr", "MZRParams"): ("mzr_t0_ytp", "mzr_t0_x0", "mzr_t0_k", "mzr_t0_slope_lo", "mzr_t0_slope_hi", "c0_y_at_tlook_c", "c1_y_at_tlook_c", "c0_early_time_slope", "c1_early_time_slope")}


def constants(which):
    def thunk():
        from dsps.cosmology import DEFAULT_COSMOLOGY, TODAY, PLANCK15, age_at_z0, age_at_z
        from dsps.metallicity import umzr, mzr
        from dsps.sfh import diffburst
        if which == "cosmology":
            return same(tuple(DEFAULT_COSMOLOGY), tuple(PLANCK15), "DEFAULT_COSMOLOGY"), tuple(DEFAULT_COSMOLOGY)
        if which == "today":
            p = [abs(float(TODAY) / float(age_at_z0(*DEFAULT_COSMOLOGY)) - 1) > 1e-9 and "TODAY = %r is not the age of the default cosmology" % float(TODAY),
                 abs(float(TODAY) / float(np.ravel(age_at_z(0.0, *DEFAULT_COSMOLOGY))[0]) - 1) > 1e-4 and "TODAY = %r is not the default cosmology's age at z=0" % float(TODAY)]
            return next(filter(None, p), None), [TODAY]
        if which == "burst":
            return (None if isinstance(diffburst.DEFAULT_BURST_PARAMS, diffburst.BurstParams) else "DEFAULT_BURST_PARAMS is not a BurstParams"), tuple(diffburst.DEFAULT_BURST_PARAMS)
        return (None if isinstance(umzr.DEFAULT_MZR_PARAMS, umzr.MZRParams) else "DEFAULT_MZR_PARAMS is not an MZRParams"), tuple(umzr.DEFAULT_MZR_PARAMS)
    return thunk


def record(mod, name, fields, how):
    def thunk():
        c = get(mod, name)
        v = [1.5 * k + 0.25 for k in range(len(fields))]
        opt = 2 if name == "SSPData" else 0
        if how == "fields":
            if tuple(c._fields) != fields:
                return "%s has fields %s, documented %s" % (name, c._fields, fields)
            return None, fields
        if how == "position":
            r = c(*v)
        elif how == "keyword":
            r = c(**dict(reversed(list(zip(fields, v)))))
        elif how == "iterable":
            r = c._make(v)
        elif how == "replace":
            r = c(*[0.0] * len(v))._replace(**dict(zip(fields, v)))
        elif how == "pickle":
            import pickle
            r = pickle.loads(pickle.dumps(c(*v)))
        elif how == "jit":
            import jax
            r = jax.jit(lambda x: x)(c(*v))
            if not isinstance(r, c):
                return "jit returns a %s" % type(r).__name__
        elif how == "optional":
            if not opt:
                raise Skip
            r = c(*v[:-opt])
            v[-opt:] = [None] * opt
            if len(r) != len(v):
                return "length %d" % len(r)
        for k, (f, x) in enumerate(zip(fields, v)):
            for y in (getattr(r, f), r[k], r._asdict()[f], tuple(r)[k]):
                if not (y is x if x is None else float(y) == x):
                    return "%s: field %s (position %d) = %r, expected %r" % (name, f, k, y, x)
        return None, [name, how]
    return thunk


def returned(mod, attr, fields):
    """functions documented to return a record: fields by name and by position are the same objects in the documented order"""
    def thunk():
        for m, a, d, _ in functions():
            if (m, a) == (mod, attr):
                r = get(mod, attr)(*d.values())
        if tuple(r._fields) != fields:
            return "%s returns fields %s, documented %s" % (attr, r._fields, fields)
        return "; ".join(filter(None, (same(getattr(r, f), r[k], f) for k, f in enumerate(fields)))), menu.flat(r)
    return thunk


RETURNS = {("dsps.sed", "calc_rest_sed_sfh_table_lognormal_mdf"): ("rest_sed", "weights", "lgmet_weights", "age_weights"),
           ("dsps.sed", "calc_rest_sed_sfh_table_met_table"): ("rest_sed", "weights", "lgmet_weights", "age_weights"),
           ("dsps.sed", "calc_ssp_weights_sfh_table_lognormal_mdf"): ("weights", "lgmet_weights", "age_weights"),
           ("dsps.sed", "calc_ssp_weights_sfh_table_met_table"): ("weights", "lgmet_weights", "age_weights"),
           ("dsps.metallicity.umzr", "get_bounded_mzr_params"): RECORDS["dsps.metallicity.umzr", "MZRParams"],
           ("dsps.data_loaders.load_filter_data", "load_random_transmission_curve"): ("wave", "transmission")}


def files(which, form):
    def thunk():
        import h5py
        import pathlib
        from dsps.data_loaders import load_ssp_templates, load_transmission_curve
        with tempfile.TemporaryDirectory(dir=os.environ.get("MC_SCRATCH")) as d:
            old = os.environ.get("DSPS_DRN")
            os.environ["DSPS_DRN"] = d
            try:
                os.makedirs(os.path.join(d, "filters"))
                os.makedirs(os.path.join(d, "other"))
                rng = np.arange(24.0)
                for sub, s in (("", 1.0), ("other", 2.0)):
                    for bn, q in (("ssp_data_fsps_v3.2_lgmet_age.h5", 1.0), ("mine.h5", 5.0)):
                        with h5py.File(os.path.join(d, sub, bn), "w") as h:
                            h["ssp_lgmet"], h["ssp_lg_age_gyr"] = np.array([-3.0, -2.0]), np.array([-3.0, -1.0, 1.0])
                            h["ssp_wave"], h["ssp_flux"] = np.array([1e3, 2e3, 3e3, 4e3]), s * q * (1 + rng.reshape(2, 3, 4))
                for sub, s in (("filters", 0.1), ("other", 0.2)):
                    for bn, q in (("aa_g_transmission.h5", 1.0), ("bb_r_transmission.h5", 3.0)):
                        with h5py.File(os.path.join(d, sub, bn), "w") as h:
                            h["wave"], h["transmission"] = np.array([4e3, 5e3, 6e3]), s * q * np.array([0.1, 0.9, 0.3])
                dflt, mine = "ssp_data_fsps_v3.2_lgmet_age.h5", "mine.h5"
                o = os.path.join(d, "other")
                S = {"()": ((), {}, 1), "(fn)": ((os.path.join(o, mine),), {}, 10), "(fn=)": ((), dict(fn=os.path.join(o, mine)), 10), "(None, drn)": ((None, o), {}, 2),
                     "(drn=)": ((), dict(drn=o), 2), "(None, drn, bn)": ((None, o, mine), {}, 10), "(drn=, bn=)": ((), dict(bn=mine, drn=o), 10), "(bn=)": ((), dict(bn=mine), 5),
                     "(None, None, bn)": ((None, None, mine), {}, 5), "(None, drn=, bn=)": ((None,), dict(drn=o, bn=mine), 10), "(fn=None)": ((), dict(fn=None), 1),
                     "(fn, drn=None)": ((os.path.join(o, dflt),), dict(drn=None), 2), "(fn, dummy=False)": ((os.path.join(o, dflt),), dict(dummy=False), 2),
                     "(None, drn, bn, False)": ((None, o, mine, False), {}, 10), "(Path)": ((pathlib.Path(o) / mine,), {}, 10)}
                g, r = "aa_g_transmission.h5", "bb_r_transmission.h5"
                C = {"(fn)": ((os.path.join(o, g),), {}, 2), "(fn=)": ((), dict(fn=os.path.join(o, r)), 6), "(None, pat)": ((None, "aa_*"), {}, 1), "(bn_pat=)": ((), dict(bn_pat="*_r_*"), 3),
                     "(None, pat, drn)": ((None, "bb*", o), {}, 6), "(bn_pat=, drn=)": ((), dict(drn=o, bn_pat="aa*"), 2), "(None, pat, drn=)": ((None, "aa*"), dict(drn=o), 2),
                     "(fn=None, bn_pat=)": ((), dict(fn=None, bn_pat="bb*"), 3)}
                if which == "ssp":
                    a, k, f = S[form]
                    x = load_ssp_templates(*a, **k)
                    want = (np.array([-3.0, -2.0]), np.array([-3.0, -1.0, 1.0]), np.array([1e3, 2e3, 3e3, 4e3]), f * (1 + rng.reshape(2, 3, 4)))
                    from dsps import SSPData
                    if not isinstance(x, SSPData):
                        return "%s returns a %s, not an SSPData" % (form, type(x).__name__)
                    x = tuple(x)[:4]
                else:
                    a, k, f = C[form]
                    x = load_transmission_curve(*a, **k)
                    want = (np.array([4e3, 5e3, 6e3]), 0.1 * f * np.array([0.1, 0.9, 0.3]))
                return same(tuple(x), want, form), menu.flat(tuple(x))
            finally:
                if old is None:
                    os.environ.pop("DSPS_DRN", None)
                else:
                    os.environ["DSPS_DRN"] = old
    return thunk


SSP_FORMS = ["()", "(fn)", "(fn=)", "(None, drn)", "(drn=)", "(None, drn, bn)", "(drn=, bn=)", "(bn=)", "(None, None, bn)", "(None, drn=, bn=)", "(fn=None)", "(fn, drn=None)",
             "(fn, dummy=False)", "(None, drn, bn, False)", "(Path)"]
CURVE_FORMS = ["(fn)", "(fn=)", "(None, pat)", "(bn_pat=)", "(None, pat, drn)", "(bn_pat=, drn=)", "(None, pat, drn=)", "(fn=None, bn_pat=)"]


def cases(tier):
    T = tier == "thorough"
    out = []
    fs = functions()
    for mod, attr, d, dfl in fs:
        n, grp = len(d), mod + "." + attr
        for k in range(n):
            tail = list(range(k, n))
            orders = {tuple(tail), tuple(tail[::-1])}
            orders |= {tuple(tail[j:] + tail[:j]) for j in range(len(tail))}
            for a, b in itertools.combinations(range(len(tail)), 2):
                o = list(tail)
                o[a], o[b] = o[b], o[a]
                orders.add(tuple(o))
            if len(tail) <= (5 if T else 4):
                orders |= set(itertools.permutations(tail))
            for o in sorted(orders):
                out.append(("call_forms", "%s(%d positional; %s)" % (grp, k, ", ".join(list(d)[j] for j in o)), grp, forms(mod, attr, d, k, o)))
        if dfl:
            on = [m for m in d if m in dfl]
            for r in range(len(on) + 1):
                for sub in itertools.combinations(on, r):
                    if not T and len(on) > 6 and r == 4:
                        continue
                    out.append(("defaults", "%s(%s)" % (grp, ", ".join(m + "=" for m in sub)), grp, defaults(mod, attr, d, dfl, sub, False)))
                    if r and list(sub) == on[:r]:
                        out.append(("defaults", "%s(%s by position)" % (grp, ", ".join(sub)), grp, defaults(mod, attr, d, dfl, sub, True)))
    for pkg, names in EXPORTS.items():
        for name, home in names.items():
            for how in ("from", "attribute") + (("star",) if pkg == "dsps" and name.startswith(("calc_", "load_")) else ()):
                out.append(("exports", "%s: %s by %s" % (pkg, name, how), "exports " + pkg, export(pkg, name, home, how)))
    for w in ("cosmology", "today", "burst", "mzr"):
        out.append(("exports", "constants: " + w, "exports constants", constants(w)))
    for (mod, name), fields in RECORDS.items():
        for how in ("fields", "position", "keyword", "iterable", "replace", "pickle", "jit", "optional"):
            out.append(("records", "%s %s" % (name, how), "records", record(mod, name, fields, how)))
    for (mod, attr), fields in RETURNS.items():
        out.append(("records", "%s returns" % attr, "returns " + attr, returned(mod, attr, fields)))
    for f in SSP_FORMS:
        out.append(("file_forms", "load_ssp_templates" + f, "ssp files", files("ssp", f)))
    for f in CURVE_FORMS:
        out.append(("file_forms", "load_transmission_curve" + f, "curve files", files("curve", f)))
    return out


def run(ctx):
    ctx.farm(cases(ctx.tier), BOUNDS)
