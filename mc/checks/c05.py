import numpy as np
import jax
from mc import alph
from mc.engine import bad_close, Skip
import mc.refs as R
from mc.checks.c04 import joint_mdf, joint_tab


def flux_family(nm, na, nw):
    """deterministic, index-coded SSP fluxes: every entry distinct, 4 decades"""
    i, j, k = np.meshgrid(np.arange(nm), np.arange(na), np.arange(nw), indexing="ij")
    return 1e-3 * (1 + i) * 10 ** (-j / na) * (1 + 0.3 * np.sin(1 + 3 * k + i + 2 * j))


def run(ctx):
    from dsps.sed import (calc_rest_sed_sfh_table_lognormal_mdf as fm, calc_rest_sed_sfh_table_met_table as ft,
                          calc_ssp_weights_sfh_table_lognormal_mdf as wm, calc_ssp_weights_sfh_table_met_table as wt)
    F4 = flux_family(4, 4, 5)

    def sedref(j, F, m):
        return np.einsum("ij,ijk->k", j, F) * m

    let = np.array([1.0, 0.0, 30.0])
    sf = np.array(np.meshgrid(*[let] * 4, indexing="ij")).reshape(4, -1).T
    zl = np.array([-2.0, -3.4])
    zh = np.array(np.meshgrid(*[zl] * 4, indexing="ij")).reshape(4, -1).T
    tobs = np.array([10.0, 2.0, 13.0, 30.0, 5.999])
    fl = np.array([1e-14, 1e-2, 5.0])
    memo = {}
    vm = jax.jit(jax.vmap(lambda t, s, z, h, g, a, o, m: tuple(fm(t, s, z, h, g, a, F4, o, m))))
    vt = jax.jit(jax.vmap(lambda t, s, z, h, g, a, o, m: tuple(ft(t, s, z, h, g, a, F4, o, m))))

    def mk(joint, zname):
        def dom(c):
            r = []
            for t, s, z, h, g, a, o, m in zip(c["t"], c["sfr"], c[zname], c["scatter"], c["grid"], c["age"], c["t_obs"], c["sfr_min"]):
                j = joint(t, s, z, h, g, a, o, m)
                r.append(j + (sedref(j[0], F4, R.mstar_obs(t, s, o, m)),))
            ok = np.array([x[3] < 1e-4 for x in r])
            memo["r"] = [x for x, k in zip(r, ok) if k]
            return ok

        def ref(c):
            r = memo["r"]
            c["_s"] = np.array([x[3] for x in r])
            return {"sed": np.array([x[4] for x in r]), "weights": np.array([x[0] for x in r]), "age": np.array([x[2] for x in r]),
                    "met": np.array([x[1] for x in r])}
        tol = {"sed": lambda c, w: (1e-8, 100 * c["_s"][:, None] * np.abs(w)), "weights": lambda c, w: (1e-8, 10 * c["_s"][:, None, None]),
               "age": lambda c, w: (1e-8, c["_s"][:, None]), "met": (1e-8, 1e-8)}
        return dom, ref, tol

    def pk(o):
        return {"sed": o[0], "weights": o[1], "met": o[2], "age": o[3]}

    ax = dict(grid=alph.Z4[[0, 2]], age=alph.A4[[0, 3, 5]], scatter=np.array([0.2, 0.03]), t=alph.T4[:3], t_obs=tobs, sfr_min=fl)
    dom, ref, tol = mk(joint_mdf, "lgmet")
    ctx.vproduct("mdf", dict(**ax, lgmet=np.array([-2.0, -3.6]), sfr=sf if ctx.thorough else sf[::4]),
                 lambda c: pk(vm(c["t"], c["sfr"], c["lgmet"], c["scatter"], c["grid"], c["age"], c["t_obs"], c["sfr_min"])), ref, tol=tol, dom=dom,
                 inv=lambda c, o: {"finite": np.isfinite(o["sed"])},
                 single=lambda g: pk(fm(g.t, g.sfr, g.lgmet, g.scatter, g.grid, g.age, F4, g.t_obs, sfr_min=g.sfr_min)), dev=1, atol=0.0)
    dom, ref, tol = mk(joint_tab, "zh")
    ctx.vproduct("table", dict(**ax, zh=zh if ctx.thorough else zh[::3], sfr=sf if ctx.thorough else sf[::20]),
                 lambda c: pk(vt(c["t"], c["sfr"], c["zh"], c["scatter"], c["grid"], c["age"], c["t_obs"], c["sfr_min"])), ref, tol=tol, dom=dom,
                 inv=lambda c, o: {"finite": np.isfinite(o["sed"])},
                 single=lambda g: pk(ft(g.t, g.sfr, g.zh, g.scatter, g.grid, g.age, F4, g.t_obs, sfr_min=g.sfr_min)), dev=1)

    # un-batched: shapes, consistency of the returned weights, linearity in flux, scaling, causality
    def one(c):
        nm, na, nw, nt = c.shape
        t = alph.time_tables(nt)[c.table]
        s = alph.sfh_family(t)[c.sfh]
        g = alph.real_lgmet(nm) if nm > 5 else np.linspace(-3.7, -1.5, nm)
        a = alph.age_grids(na)[c.ages]
        F = flux_family(nm, na, nw)
        o = c.t_obs
        kw = {} if c.floor is None else dict(sfr_min=c.floor)
        f0 = c.floor or 1e-14
        if c.met == "mdf":
            z = -2.1
            G, W, joint = fm, wm, joint_mdf
        else:
            z = np.linspace(-3.4, -1.3, nt)
            G, W, joint = ft, wt, joint_tab
        w, mw, aw, sl = joint(t, s, z, 0.15, g, a, o, f0)
        if sl > 1e-5:
            raise Skip
        R0 = G(t, s, z, 0.15, g, a, F, o, **kw)
        sed = np.asarray(R0.rest_sed)
        p = [None if sed.shape == (nw,) and R0.weights.shape == (nm, na) and R0.age_weights.shape == (na,) else
             "shapes %s" % ([x.shape for x in R0],)]
        m = R.mstar_obs(t, s, o, f0)
        tol = 1e-8 + 100 * sl
        p.append(bad_close(sed, sedref(w, F, m), tol))
        p.append(bad_close(R0.weights, w, 1e-7, 1e-9 + 10 * sl))
        p.append(bad_close(R0.age_weights, aw, 1e-8, 1e-9 + sl))
        p.append(bad_close(R0.lgmet_weights, mw, 1e-7, 1e-9))
        if c.floor is None:
            W0 = W(t, s, z, 0.15, g, a, o)
            p.append(bad_close(R0.weights, np.asarray(W0.weights), 1e-11, 1e-14))
            p.append(bad_close(R0.age_weights, np.asarray(W0.age_weights), 1e-11, 1e-14))
            p.append(bad_close(R0.lgmet_weights, np.asarray(W0.lgmet_weights), 1e-11, 1e-14))
        # linear in flux, wavelength by wavelength
        F2 = F[:, ::-1, ::-1] * 2.0 + 1e-6
        S2 = np.asarray(G(t, s, z, 0.15, g, a, F2, o, **kw).rest_sed)
        S3 = np.asarray(G(t, s, z, 0.15, g, a, F + 3 * F2, o, **kw).rest_sed)
        p.append(bad_close(S3, sed + 3 * S2, 1e-9))
        if nw > 1:
            Fk = F.copy()
            Fk[:, :, 0] *= 7
            Sk = np.asarray(G(t, s, z, 0.15, g, a, Fk, o, **kw).rest_sed)
            p.append(bad_close(Sk[1:], sed[1:], 1e-12))
            p.append(bad_close(Sk[0], 7 * sed[0], 1e-9))
        Fz = np.zeros_like(F)
        p.append(bad_close(G(t, s, z, 0.15, g, a, Fz, o, **kw).rest_sed, np.zeros(nw), 0, 0))
        for k in (1e-40, 1e25, -1.0):
            p.append(bad_close(np.asarray(G(t, s, z, 0.15, g, a, k * F, o, **kw).rest_sed) / k, sed, 1e-9))
        # SFR normalisation
        if s.min() > 1e-3 and c.floor is None:
            p += [bad_close(np.asarray(G(t, k * s, z, 0.15, g, a, F, o).rest_sed) / k, sed, 1e-6) for k in (1e3, 1e20)]
        # causality: everything after the first node at or beyond t_obs is invisible
        k = int(np.searchsorted(t, o))
        if k + 1 < nt:
            s2 = s.copy()
            s2[k + 1:] = 123.0 + np.arange(nt - k - 1)
            z2 = z
            if c.met == "table":
                z2 = z.copy()
                z2[k + 1:] = -0.3
            p.append(bad_close(G(t, s2, z2, 0.15, g, a, F, o, **kw).rest_sed, sed, 1e-9))
        ctx.outcome(sed)
        return p
    shapes = [(22, 94, 50, 100), (12, 107, 7, 100), (4, 5, 3, 4), (3, 3, 1, 2), (5, 4, 5, 5), (22, 94, 1963, 300), (5, 201, 11, 1000)]
    if ctx.thorough:
        shapes += [(22, 94, 1963, 100), (94, 22, 22, 94), (3, 4, 2, 3), (4, 4, 4, 4), (22, 94, 3, 1000)]
    ctx.product("shapes", dict(met=["mdf", "table"], shape=[("met%d_age%d_wave%d_t%d" % b, b) for b in shapes], ages=["uniform", "uneven"], table=["lin", "log"],
                               sfh=["const", "gap", "rising", "spike_last", "quenched"], t_obs=[13.0, 4.0, 13.8], floor=[None, 1e-3]), one,
                dom=lambda c: ctx.thorough or c.shape[2] < 1963 or (c.sfh in ("rising", "gap") and c.ages == "uneven" and c.t_obs < 13.5 and c.floor is None))

    # the number of wavelengths is free: each one is weighted independently, so the 1-wavelength answers are repeated on any grid
    t = alph.time_tables(20)["lin"]
    s = alph.sfh_family(t)["rising"]
    g, a = np.linspace(-3.7, -1.5, 3), np.linspace(-3.0, 1.1, 4)
    B = flux_family(3, 4, 5)
    base = {}

    def nwave(c):
        G, z = (fm, -2.1) if c.met == "mdf" else (ft, np.linspace(-3.4, -1.3, 20))
        if c.met not in base:
            base[c.met] = np.asarray(G(t, s, z, 0.15, g, a, B, 12.0).rest_sed)
        k = np.arange(c.nw) % 5
        f = 1.0 + np.arange(c.nw) / 100.0
        x = np.asarray(G(t, s, z, 0.15, g, a, B[:, :, k] * f, 12.0).rest_sed)
        if x.shape != (c.nw,):
            return "shape %s" % (x.shape,)
        ctx.outcome(x[-1])
        return bad_close(x, base[c.met][k] * f, 1e-9)
    N = [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 5994, 8191, 8192, 8193]
    if ctx.thorough:
        N += list(range(10, 15)) + list(range(18, 31)) + [10000, 16384, 16385, 20000, 32769]
    ctx.product("wavelength_counts", dict(met=["mdf", "table"], nw=N), nwave)
