import numpy as np
import jax
from mc import alph
from mc.engine import bad_close, Skip
import mc.refs as R


def joint_mdf(t, s, z, h, g, a, o, fl=1e-14):
    aw, sl = R.age_weights(t, s, a, o, fl)
    mw, s2 = R.met_weights(z, h, g)
    w = mw[:, None] * aw[None, :]
    return w / w.sum(), mw, aw, sl + s2


def joint_tab(t, s, zt, h, g, a, o, fl=1e-14):
    aw, sl = R.age_weights(t, s, a, o, fl)
    mw = R.met_table_weights(t, zt, h, g, a, o)
    w = mw * aw[None, :]
    return w / w.sum(), mw, aw, sl + 1e-9


def run(ctx):
    from dsps.sed import (calc_ssp_weights_sfh_table_lognormal_mdf as fm, calc_ssp_weights_sfh_table_met_table as ft,
                          calc_age_weights_from_sfh_table as fa, calc_lgmet_weights_from_lognormal_mdf as fz,
                          calc_lgmet_weights_from_lgmet_table as fzt)

    def pack(o):
        return {"weights": o.weights, "lgmet_weights": o.lgmet_weights, "age_weights": o.age_weights}

    # 1. batched: SFH tree x metallicity x grids x t_obs, n_met = n_age = 4 (a square grid hides no transposition: values differ)
    let = np.array([1.0, 0.0, 30.0])
    sf = np.array(np.meshgrid(*[let] * 4, indexing="ij")).reshape(4, -1).T
    zg = alph.Z4[[0, 2]]
    ag = alph.A4[[0, 2, 3, 5]]
    tt = alph.T4[:3]
    tobs = np.array([10.0, 2.0, 13.0, 16.0])
    floors = np.array([1e-14, 0.5])
    zs = np.array([-2.0, -3.6, -1.0, 11.5])
    vm = jax.jit(jax.vmap(lambda t, s, z, h, g, a, o, fl: tuple(fm(t, s, z, h, g, a, o, fl))))
    vt = jax.jit(jax.vmap(lambda t, s, z, h, g, a, o, fl: tuple(ft(t, s, z, h, g, a, o, fl))))
    memo = {}

    def mk(joint, zname):
        def dom(c):
            r = [joint(*x) for x in zip(c["t"], c["sfr"], c[zname], c["scatter"], c["grid"], c["age"], c["t_obs"], c["floor"])]
            ok = np.array([x[3] < 1e-4 for x in r])
            memo["r"] = [x for x, k in zip(r, ok) if k]
            return ok

        def ref(c):
            r = memo["r"]
            c["_s"] = np.array([x[3] for x in r])[:, None]
            return {"weights": np.array([x[0] for x in r]), "lgmet_weights": np.array([x[1] for x in r]),
                    "age_weights": np.array([x[2] for x in r])}

        def inv(c, o):
            s = c["_s"]
            return {"finite": np.isfinite(o["weights"]), "non-negative": o["weights"] >= -s[..., None],
                    "sum to one": np.abs(o["weights"].sum((1, 2)) - 1) < 1e-9 + 10 * s[:, 0],
                    "marginal over metallicity": np.abs(o["weights"].sum(1) - o["age_weights"]) < 1e-8 + 20 * s}
        tol = {"weights": lambda c, w: (1e-8, 10 * c["_s"][..., None]), "age_weights": lambda c, w: (1e-9, c["_s"]),
               "lgmet_weights": lambda c, w: (1e-8, 1e-9 + (c["_s"] if w.ndim == 2 else c["_s"][..., None]))}
        return dom, ref, inv, tol
    dom, ref, inv, tol = mk(joint_mdf, "lgmet")
    ctx.vproduct("mdf", dict(grid=zg, age=ag, t=tt, t_obs=tobs, floor=floors, scatter=np.array([0.2, 0.01]), lgmet=zs, sfr=sf if ctx.thorough else sf[::2]),
                 lambda c: pack(type("N", (), dict(zip(("weights", "lgmet_weights", "age_weights"), vm(
                     c["t"], c["sfr"], c["lgmet"], c["scatter"], c["grid"], c["age"], c["t_obs"], c["floor"]))))), ref, inv=inv, tol=tol, dom=dom,
                 single=lambda g: pack(fm(g.t, g.sfr, g.lgmet, g.scatter, g.grid, g.age, g.t_obs, sfr_min=g.floor)))
    zl = np.array([-2.0, -3.4, -1.2])
    zh = np.array(np.meshgrid(*[zl] * 4, indexing="ij")).reshape(4, -1).T
    dom, ref, inv, tol = mk(joint_tab, "zh")
    ctx.vproduct("table", dict(grid=zg, age=ag, t=tt, t_obs=tobs, floor=floors, scatter=np.array([0.2]), zh=zh if ctx.thorough else zh[::4],
                               sfr=sf if ctx.thorough else sf[::9]),
                 lambda c: pack(type("N", (), dict(zip(("weights", "lgmet_weights", "age_weights"), vt(
                     c["t"], c["sfr"], c["zh"], c["scatter"], c["grid"], c["age"], c["t_obs"], c["floor"]))))), ref, inv=inv, tol=tol, dom=dom,
                 single=lambda g: pack(ft(g.t, g.sfr, g.zh, g.scatter, g.grid, g.age, g.t_obs, sfr_min=g.floor)))

    # 2. every grid shape, un-batched; equality with the stand-alone functions; constant table == MDF; floor
    def shapes(c):
        t = alph.time_tables(c.n_t)["lin"]
        k = {} if c.floor is None else {"sfr_min": c.floor}
        fl = c.floor or 1e-14
        s = alph.sfh_family(t)[c.sfh]
        g = alph.real_lgmet(c.n_met) if 5 < c.n_met <= 22 else np.linspace(-3.7, -1.5, c.n_met)
        a = alph.age_grids(c.n_age)[c.ages]
        o = c.t_obs
        p = []
        W = fm(t, s, c.lgmet, 0.15, g, a, o, **k)
        w, mw, aw, sl = joint_mdf(t, s, c.lgmet, 0.15, g, a, o, fl)
        if sl > 1e-4:
            raise Skip
        p.append(bad_close(W.weights, w, 1e-8, 1e-10 + 10 * sl))
        p.append(bad_close(W.age_weights, fa(t, s, a, o, **k), 1e-12, 1e-15))
        p.append(bad_close(W.lgmet_weights, fz(c.lgmet, 0.15, g), 1e-12, 1e-15))
        ztab = np.full(c.n_t, c.lgmet)
        V = ft(t, s, ztab, 0.15, g, a, o, **k)
        p.append(bad_close(V.weights, np.asarray(W.weights), 1e-8, 1e-10 + 10 * sl))
        p.append(bad_close(V.age_weights, fa(t, s, a, o, **k), 1e-12, 1e-15))
        p.append(bad_close(V.lgmet_weights, fzt(t, ztab, 0.15, g, a, o), 1e-12, 1e-15))
        ramp = np.linspace(-3.4, -1.3, c.n_t)
        V = ft(t, s, ramp, 0.15, g, a, o, **k)
        w2 = joint_tab(t, s, ramp, 0.15, g, a, o, fl)
        p.append(bad_close(V.weights, w2[0], 1e-7, 1e-9 + 10 * sl))
        p.append(bad_close(V.lgmet_weights, fzt(t, ramp, 0.15, g, a, o), 1e-12, 1e-15))
        p.append(bad_close(np.asarray(V.weights).sum(0), np.asarray(V.age_weights), 1e-8, 1e-9 + 10 * sl))
        ctx.outcome(W.weights)
        return p
    big = [(22, 94, 100), (12, 107, 100), (22, 94, 22), (5, 22, 94), (3, 3, 2), (3, 4, 3), (4, 3, 4), (4, 4, 5), (22, 22, 22), (7, 5, 6), (22, 94, 300), (30, 201, 1000)]
    if ctx.thorough:
        big += [(a, b, d) for a in (3, 4, 5, 6) for b in (3, 4, 5, 6) for d in (2, 3, 4, 6)] + [(22, 107, 1000)]

    class B:
        pass
    ctx.product("shapes", dict(shape=[("met%d_age%d_t%d" % b, b) for b in dict.fromkeys(big)], sfh=["const", "gap", "rising", "spike_last"],
                               lgmet=[-2.0, -3.7], floor=[None, 0.7], ages=["uniform", "uneven"], t_obs=[13.0, 4.0, 15.0]),
                lambda c: shapes(_cfg(c)))


def _cfg(c):
    from mc.engine import Cfg
    d = Cfg(c)
    d["n_met"], d["n_age"], d["n_t"] = c.shape
    return d
