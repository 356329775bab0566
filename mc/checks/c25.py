"""End to end: SFH + metallicity -> SED -> (dust) -> magnitudes, by every documented route."""
import os
import tempfile
import numpy as np
import h5py
from mc import alph
from mc.engine import bad_close, Skip
import mc.refs as R
from mc.checks.c04 import joint_mdf, joint_tab

COSMOS = {"default": None, "w0wa": (0.27, -0.9, 0.1, 0.72)}


def run(ctx):
    from dsps import (calc_rest_sed_sfh_table_lognormal_mdf as fm, calc_rest_sed_sfh_table_met_table as ft, calc_obs_mag, calc_rest_mag,
                      load_ssp_templates, load_transmission_curve)
    from dsps.sed import calc_ssp_weights_sfh_table_lognormal_mdf as wm, calc_ssp_weights_sfh_table_met_table as wt
    from dsps.photometry.photpop import precompute_ssp_obsmags_on_z_table as pz, precompute_ssp_restmags as pr, precompute_ssp_restmags_z_kcorrect as pk
    from dsps.cosmology import DEFAULT_COSMOLOGY, age_at_z
    from dsps.cosmology.flat_wcdm import distance_modulus_to_z as dm
    from dsps.dust import att_curves as AC
    from dsps.sfh.diffburst import BurstParams, calc_bursty_age_weights

    nm, na, nw, nf = 6, 12, 160, 3
    G = np.array([-3.6, -3.1, -2.6, -2.2, -1.8, -1.4])
    AG = {k: v for k, v in alph.age_grids(na).items()}
    W = np.geomspace(912.0, 30000.0, nw)
    i, j, k = np.meshgrid(np.arange(nm), np.arange(na), np.arange(nw), indexing="ij")
    F = 1e-5 * (1 + 0.5 * i) * 10 ** (-0.25 * j) * (W / 5000.0) ** (-1 + 0.25 * j / 2) * (1.3 + np.sin(0.31 * k + i - 2 * j))
    FW = np.array([np.linspace(3200, 5500, 25), np.linspace(5000, 7200, 25), np.linspace(7000, 11000, 25)])
    FT = np.array([0.1 + 0.8 * np.sin(np.linspace(0.1, 3.0, 25)) ** 2, np.linspace(0.9, 0.3, 25), 0.5 + 0.4 * np.cos(np.arange(25.0))])
    ZT = [0.05, 0.5, 2.0]
    cos = {n: tuple(DEFAULT_COSMOLOGY) if v is None else v for n, v in COSMOS.items()}
    D = {(c, z): (float(np.asarray(age_at_z(z, *cos[c]))[0]), float(dm(z, *cos[c])) - 2.5 * np.log10(1 + z)) for c in cos for z in ZT}

    MIC = W / 1e4
    KL = {"c00": lambda: AC.calzetti00_k_lambda(MIC), "noll": lambda: AC.noll09_k_lambda(MIC, 1.5, -0.3),
          "sbl": lambda: AC.sbl18_k_lambda(MIC, 2.0, 0.2), "tw": lambda: AC.triweight_k_lambda(MIC)}
    ATT = {"c00": lambda av: AC.calzetti00_att_curve(MIC, av), "noll": lambda av: AC.noll09_k_att_curve(MIC, av, 1.5, -0.3),
           "sbl": lambda av: AC.sbl18_k_att_curve(MIC, av, 2.0, 0.2)}

    def trans(kind, av):
        """transmitted fraction per SED wavelength from the attenuation curve"""
        if kind == "none":
            return np.ones(nw)
        if kind in ATT:
            return 10 ** (-0.4 * np.asarray(ATT[kind](av)))
        return 10 ** (-0.4 * np.asarray(KL[kind]()) * av / 4.05)
    memo = {}

    def tables(kind, av, c):
        key = kind, av, c
        if key not in memo:
            Fd = F * trans(kind, av)
            memo[key] = (np.asarray(pz(W, Fd, FW, FT, np.array(ZT), *cos[c])), np.asarray(pr(W, Fd, FW, FT)),
                         [np.asarray(pk(W, Fd, FW, FT, z)) for z in ZT], Fd)
        return memo[key]

    def gal(c):
        nt = c.nt
        t = alph.time_tables(nt)[c.table]
        s = alph.sfh_family(t)[c.sfh]
        a = AG[c.ages]
        if c.met == "mdf":
            return t, s, c.lgmet, c.scatter, G, a
        return t, s, c.lgmet + np.linspace(-0.8, 0.6, nt) * np.where(np.arange(nt) % 5 == 3, 0.5, 1.0), c.scatter, G, a

    def pipeline(c):
        g = gal(c)
        t, s = g[:2]
        iz = ZT.index(c.z)
        to, dmz = D[c.cosmo, c.z]
        kw = {} if c.floor is None else dict(sfr_min=c.floor)
        fl = c.floor or 1e-14
        joint, f, wf = (joint_mdf, fm, wm) if c.met == "mdf" else (joint_tab, ft, wt)
        w, mw, aw, sl = joint(*g, to, fl)
        if not sl < 1e-6:
            raise Skip
        m = R.mstar_obs(t, s, to, fl)
        av = c.av
        T = trans(c.dust, av)
        O, Rm, K, Fd = tables(c.dust, av, c.cosmo)
        got = f(*g, F, to, **kw)
        sed = np.asarray(got.rest_sed)
        want = np.einsum("ij,ijk->k", w, F) * m
        p = [bad_close(sed, want, 1e-7 + 100 * sl)]
        W0 = wf(*g, to, **kw)
        wts = np.asarray(W0.weights)
        p.append(bad_close(wts, np.asarray(got.weights), 1e-10, 1e-13))
        tol = 3e-7 + 200 * sl
        # dust commutes with the sum over the SSPs
        sedd = np.asarray(f(*g, Fd, to, **kw).rest_sed)
        p.append(bad_close(sedd, sed * T, 1e-9))
        for b in range(nf):
            ob = float(calc_obs_mag(W, sedd, FW[b], FT[b], c.z, *cos[c.cosmo]))
            rb = float(calc_rest_mag(W, sedd, FW[b], FT[b]))
            # route 1: the definition, by the reference model
            p.append(bad_close(rb, R.mag(R.band_ratio(W, want * T, FW[b], FT[b])), 0, tol))
            p.append(bad_close(ob, R.mag(R.band_ratio(W, want * T, FW[b], FT[b], c.z)) + dmz, 0, tol))
            # route 2: precomputed SSP magnitudes weighted in flux
            p.append(bad_close(-2.5 * np.log10(m * np.sum(wts * 10 ** (-0.4 * O[iz, :, :, b]))), ob, 0, tol))
            p.append(bad_close(-2.5 * np.log10(m * np.sum(wts * 10 ** (-0.4 * Rm[:, :, b]))), rb, 0, tol))
            p.append(bad_close(-2.5 * np.log10(m * np.sum(wts * 10 ** (-0.4 * K[iz][:, :, b]))) + dmz, ob, 0, tol))
            # a population is never brighter than its brightest nor fainter than its faintest SSP
            q = O[iz, :, :, b] - 2.5 * np.log10(m)
            if not q.min() - 1e-6 <= ob <= q.max() + 1e-6:
                p.append("composite magnitude %r outside its SSPs' range [%r, %r]" % (ob, q.min(), q.max()))
            if c.dust != "none":
                clean = float(calc_obs_mag(W, sed, FW[b], FT[b], c.z, *cos[c.cosmo]))
                amax = float((-2.5 * np.log10(T)).max())
                if not -1e-9 <= ob - clean <= amax + 1e-9:
                    p.append("dust changes the magnitude by %r (max A %r)" % (ob - clean, amax))
        ctx.outcome(sedd, wts)
        return p
    T_ = ctx.thorough
    dust = [("none", 0.0), ("c00", 0.0), ("c00", 0.7), ("c00", 3.0), ("noll", 1.2), ("sbl", 0.4), ("tw", 1.0)]
    ctx.product("pipeline", dict(met=["mdf", "table"], z=ZT, cosmo=list(COSMOS), dust=[("%s Av=%g" % d, d) for d in dust], sfh=["const", "falling", "gap", "quenched", "saw", "spike_mid"],
                                 table=["lin", "log"], ages=list(AG), lgmet=[-2.3, -1.2], scatter=[0.2] if not T_ else [0.2, 0.6], floor=[None, 0.3], nt=[30] if not T_ else [30, 7]),
                lambda c: pipeline(type(c)({**c, "dust": c.dust[0], "av": c.dust[1]})))

    # the whole redshift range, a library with all axes of different length, tiny and huge light units
    zs = np.array([0.5, 1e-4, 1e-3, 0.01, 0.02, 0.05, 0.1, 0.2, 0.3, 0.4, 0.6, 0.8, 1.0, 1.2, 1.5, 1.99, 2.0, 2.01, 2.5, 3.0, 3.5, 4.0, 5.0, 6.0, 7.0, 8.0, 10.0, 12.0, 15.0, 20.0])
    n1, n2, n3 = (12, 50, 200) if not T_ else (22, 94, 300)
    G2, A2 = np.linspace(-3.7, -1.3, n1), np.linspace(-3.0, 1.1, n2)
    W2 = np.geomspace(60.0, 60000.0, n3)
    i, j, k = np.meshgrid(np.arange(n1), np.arange(n2), np.arange(n3), indexing="ij")
    F2 = 1e-5 * (1 + 0.5 * i) * 10 ** (-0.05 * j) * (W2 / 5000.0) ** (-1 + 0.03 * j) * (1.3 + np.sin(0.31 * k + i - 2 * j))
    FW2, FT2 = FW[[0, 2]] * 1.1, FT[[0, 2]]
    DZ = {c: (np.asarray(age_at_z(zs, *cos[c])), np.array([float(dm(z, *cos[c])) for z in zs]) - 2.5 * np.log10(1 + zs)) for c in cos}
    tb = {}

    def sweep(c):
        key = c.unit, c.cosmo
        if key not in tb:
            tb[key] = np.asarray(pz(W2, c.unit * F2, FW2, FT2, zs, *cos[c.cosmo]))
        if ("r", c.unit) not in tb:
            tb["r", c.unit] = np.asarray(pr(W2, c.unit * F2, FW2, FT2))
        if ("k", c.unit, c.z) not in tb:
            tb["k", c.unit, c.z] = np.asarray(pk(W2, c.unit * F2, FW2, FT2, zs[c.z]))
        t = np.geomspace(0.01, 13.7, 40)
        s = alph.sfh_family(t)[c.sfh]
        to, dmz = DZ[c.cosmo][0][c.z], DZ[c.cosmo][1][c.z]
        joint, f, wf = (joint_mdf, fm, wm) if c.met == "mdf" else (joint_tab, ft, wt)
        lz = -2.2 if c.met == "mdf" else np.linspace(-3.4, -1.4, 40)
        w, mw, aw, sl = joint(t, s, lz, 0.2, G2, A2, to)
        if not sl < 1e-6:
            raise Skip
        m = R.mstar_obs(t, s, to)
        sed = np.asarray(f(t, s, lz, 0.2, G2, A2, c.unit * F2, to).rest_sed)
        want = np.einsum("ij,ijk->k", w, F2) * m * c.unit
        tol = 3e-7 + 200 * sl
        p = [bad_close(sed, want, 1e-7 + 100 * sl)]
        wts = np.asarray(wf(t, s, lz, 0.2, G2, A2, to).weights)
        z = float(zs[c.z])
        for b in range(2):
            ob = float(calc_obs_mag(W2, sed, FW2[b], FT2[b], z, *cos[c.cosmo]))
            p += [bad_close(ob, R.mag(R.band_ratio(W2, want, FW2[b], FT2[b], z)) + dmz, 0, tol),
                  bad_close(-2.5 * np.log10(m * np.sum(wts * 10 ** (-0.4 * tb[key][c.z, :, :, b]))), ob, 0, tol),
                  bad_close(-2.5 * np.log10(m * np.sum(wts * 10 ** (-0.4 * tb["k", c.unit, c.z][:, :, b]))) + dmz, ob, 0, tol),
                  bad_close(-2.5 * np.log10(m * np.sum(wts * 10 ** (-0.4 * tb["r", c.unit][:, :, b]))), float(calc_rest_mag(W2, sed, FW2[b], FT2[b])), 0, tol)]
        ctx.outcome(sed)
        return p
    ctx.product("redshift_sweep", dict(z=range(len(zs)), met=["mdf", "table"], cosmo=list(COSMOS), sfh=["rising", "falling", "gap"], unit=[1.0, 1e-30, 1e20]), sweep)

    # a burst on top: light is linear in the age weights
    def burst(c):
        g = gal(c)
        to, dmz = D["default", c.z]
        w, mw, aw, sl = joint_mdf(*g, to)
        if not sl < 1e-6:
            raise Skip
        o = wm(*g, to)
        aw_, mw_ = np.asarray(o.age_weights), np.asarray(o.lgmet_weights)
        bp = BurstParams(c.lgfb, c.pk, c.pk + 1 + 0.4 * (8 - c.pk))
        x = g[5] + 9.0
        if not np.any((x > 2 * bp[1] - bp[2] + 1e-6) & (x < bp[2] - 1e-6)):
            raise Skip
        ba = np.asarray(calc_bursty_age_weights(bp, aw_, g[5]))
        jw = mw_[:, None] * ba[None]
        fb = 10 ** c.lgfb
        pure = R.tw_pdf(x, bp[1], (2 * (bp[2] - bp[1])) / 6)
        pure = pure / pure.sum()
        p = [bad_close(jw.sum(), 1.0, 1e-12), bad_close(ba, (1 - fb) * aw_ + fb * pure, 1e-8, 1e-13)]
        O = tables("none", 0.0, "default")[0][ZT.index(c.z)]
        sm = np.einsum("i,j,ijk->k", mw_, aw_, F)
        bu = np.einsum("i,j,ijk->k", mw_, pure, F)
        for b in range(nf):
            mg = -2.5 * np.log10(np.sum(jw * 10 ** (-0.4 * O[:, :, b])))
            p.append(bad_close(float(calc_obs_mag(W, (1 - fb) * sm + fb * bu, FW[b], FT[b], c.z, *cos["default"])), mg, 0, 1e-8))
        ctx.outcome(jw)
        return p
    ctx.product("burst", dict(met=["mdf"], z=ZT, sfh=["const", "falling", "quenched"], table=["lin"], ages=list(AG), lgmet=[-2.3], scatter=[0.2], nt=[30], lgfb=[-2.0, -1.0, -4.0, -8.0],
                              pk=[5.5, 5.0, 6.7, 8.0]), burst)

    # from files: the same numbers when templates and filters pass through disk and the loaders
    def disk(c):
        drn = tempfile.mkdtemp(dir=os.environ["MC_SCRATCH"])
        os.mkdir(os.path.join(drn, "filters"))
        a = AG[c.ages]
        with h5py.File(os.path.join(drn, "ssp_data_fsps_v3.2_lgmet_age.h5"), "w") as h:
            for n, v in (("ssp_lgmet", G), ("ssp_lg_age_gyr", a), ("ssp_wave", W), ("ssp_flux", F)):
                h[n] = v
        for b in range(nf):
            with h5py.File(os.path.join(drn, "filters", "lsst_%s_transmission.h5" % "gri"[b]), "w") as h:
                h["wave"], h["transmission"] = FW[b], FT[b]
        if c.how == "env":
            os.environ["DSPS_DRN"] = drn
            kw, fk = {}, {}
        else:
            kw, fk = dict(drn=drn), dict(drn=os.path.join(drn, "filters"))
        try:
            d = load_ssp_templates(**kw)
            tc = [load_transmission_curve(bn_pat="lsst_%s*" % b, **fk) for b in "gri"]
        finally:
            os.environ.pop("DSPS_DRN", None)
        t = alph.time_tables(30)["lin"]
        s = alph.sfh_family(t)[c.sfh]
        to, dmz = D["default", c.z]
        w, mw, aw, sl = joint_mdf(t, s, -2.1, 0.2, G, a, to)
        if not sl < 1e-6:
            raise Skip
        sed = np.asarray(fm(t, s, -2.1, 0.2, d.ssp_lgmet, d.ssp_lg_age_gyr, d.ssp_flux, to).rest_sed)
        want = np.einsum("ij,ijk->k", w, F) * R.mstar_obs(t, s, to)
        p = [bad_close(sed, want, 1e-7 + 100 * sl)]
        for b in range(nf):
            p.append(bad_close(float(calc_obs_mag(d.ssp_wave, sed, tc[b].wave, tc[b].transmission, c.z, *DEFAULT_COSMOLOGY)),
                               R.mag(R.band_ratio(W, want, FW[b], np.clip(FT[b], 0, 1), c.z)) + dmz, 0, 1e-6))
        ctx.outcome(sed)
        return p
    ctx.product("from_files", dict(how=["env", "drn"], ages=list(AG), sfh=["const", "falling", "saw"], z=ZT), disk)
