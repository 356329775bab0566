import numpy as np
import jax
from mc import alph, refs
from mc.engine import bad_close
import mc.refs as R


def cmp_weights(got, want, slack):
    got = np.asarray(got)
    out = []
    if not np.all(np.isfinite(got)):
        return ["weights not finite: %r" % got[:8]]
    if got.min() < -slack:
        out.append("negative weight %r" % got.min())
    if abs(got.sum() - 1) > 1e-9 + slack:
        out.append("weights sum to %r" % got.sum())
    m = bad_close(got, want, 1e-9, slack)
    if m:
        out.append(m)
    return out


def run(ctx):
    from dsps.sed import calc_age_weights_from_sfh_table as f
    import dsps

    # 1. every SFH of 4 nodes over a 5-letter SFR alphabet x grids x t_obs x floor (batched real code)
    letters = alph.SFR4
    sf = np.array(np.meshgrid(*[letters] * 4, indexing="ij")).reshape(4, -1).T
    tobs = np.array([10.0, 13.0, 3.0, 1.5, 0.3, 20.0, 6.0001, 1.001])
    smin = np.array([1e-14, 1e-2, 10.0] if ctx.thorough else [1e-14, 1e-2])
    v = jax.jit(jax.vmap(lambda t, s, a, o, m: f(t, s, a, o, m)))

    memo = {}

    def dom(c):
        # some mass must have formed inside the age grid (otherwise the fractions are undefined)
        w, sl = [], []
        for t, s, a, o, m in zip(c["t"], c["sfr"], c["age"], c["t_obs"], c["sfr_min"]):
            x, y = R.age_weights(t, s, a, o, m)
            w.append(x)
            sl.append(y)
        w, sl = np.array(w), np.array(sl)
        ok = sl < 1e-3
        memo["w"], memo["s"] = w[ok], sl[ok][:, None]
        return ok

    def ref(c):
        c["_slack"] = memo["s"]
        return {"w": memo["w"]}

    def impl(c):
        return {"w": v(c["t"], c["sfr"], c["age"], c["t_obs"], c["sfr_min"])}

    ctx.vproduct("sfh_tree", dict(t_obs=tobs, sfr_min=smin, age=alph.A4, t=alph.T4, sfr=sf), impl, ref,
                 tol={"w": lambda c, w: (1e-9, c["_slack"])}, dom=dom,
                 inv=lambda c, o: {"finite": np.isfinite(o["w"]), "non-negative": o["w"] >= -c["_slack"],
                                   "sum to one": np.abs(o["w"].sum(1) - 1) <= 1e-9 + c["_slack"][:, 0]},
                 single=lambda g: {"w": f(g.t, g.sfr, g.age, g.t_obs, g.sfr_min)}, dev=1)

    # 2. un-batched, realistic sizes, public entry points, default and explicit floor
    nts = [12, 100, 1000] if ctx.thorough else [12, 100]
    nas = [3, 25, 94, 107] if ctx.thorough else [3, 94, 107]
    sfr_names = list(alph.sfh_family(np.arange(1, 5)))
    tabs = ["lin", "log", "late"]

    def one(c):
        t = alph.time_tables(c.n_t)[c.table]
        s = alph.sfh_family(t)[c.sfh]
        a = np.linspace(-3.5, 1.2, c.n_age) if c.ages == "uniform" else alph.age_grids(c.n_age)[c.ages]
        e = R.age_edges(a)
        to = c.t_obs if c.t_obs > 0 else t[-1]
        if to - 10 ** e[0] <= t[0] * (1 + 1e-9):
            from mc.engine import Skip
            raise Skip
        args = (t, s, a, to)
        want, slack = R.age_weights(t, s, a, to, c.floor or 1e-14)
        if not np.isfinite(slack) or slack > 1e-3:
            from mc.engine import Skip
            raise Skip
        got = f(*args) if c.floor is None else f(*args, sfr_min=c.floor)
        if got.dtype != np.float64:
            return "result dtype %s" % got.dtype
        ctx.outcome(got)
        return cmp_weights(got, want, slack)

    ctx.product("realistic", dict(n_t=nts, n_age=nas, ages=["uniform", "uneven"], table=tabs, sfh=sfr_names,
                                  t_obs=[13.0, 5.0, 1.3, -1.0, 25.0, 0.2] if ctx.thorough else [13.0, 1.3, -1.0, 25.0],
                                  floor=[None, 1e-3] if not ctx.thorough else [None, 1e-3, 1.0]), one)

    # 2b. large tables and age grids
    ctx.product("large", dict(n_t=[257, 300, 1000] + ([2000, 4097] if ctx.thorough else []), n_age=[94, 200, 301] + ([1025] if ctx.thorough else []), ages=["uniform", "uneven"],
                              table=tabs, sfh=["const", "rising", "gap", "saw", "spike_mid"], t_obs=[13.0, 3.3, 25.0], floor=[None]), one)

    # 3. every table length x every age-grid length (degenerate sizes first)
    def sizes(c):
        t = np.linspace(0.5, 13.0, c.n_t)
        s = 1.0 + np.arange(c.n_t) % 3
        a = np.linspace(-2.0, 1.05, c.n_age)
        want, slack = R.age_weights(t, s, a, 12.0)
        got = f(t, s, a, 12.0)
        ctx.outcome(got)
        return cmp_weights(got, want, slack)
    hi = 12 if ctx.thorough else 8
    ctx.product("all_sizes", dict(n_t=range(2, hi), n_age=range(3, hi)), sizes)

    # 4. t_obs swept through every node, mid-point and one-ulp neighbour of the table and of the age edges
    t = np.array([0.5, 1.0, 2.0, 4.0, 7.0, 13.0])
    for na, a in [("old", np.array([-2.5, -1.5, -0.5, 0.3, 0.9])), ("young", np.array([-2.5, -1.5, -0.5, 0.3, 0.55])),
                  ("narrow", np.array([-0.5, -0.2, 0.0, 0.1]))]:
        sweep(ctx, f, t, na, a)

    # 5. metamorphic: normalisation above the floor, and SFR below the floor is irrelevant
    def meta(c):
        t = alph.T4[c.t]
        s = np.array([2.0, 0.5, 4.0, 1.0])
        a = alph.A4[c.age]
        w0 = f(t, s, a, c.t_obs)
        w1 = f(t, s * c.scale, a, c.t_obs)
        # the implicit 1 Myr start row has the fixed SFR 1e-14, hence the tiny slack
        m = bad_close(w1, w0, 1e-7, 1e-9)
        s2 = np.array([2.0, 1e-6, 4.0, 0.0])
        s3 = np.array([2.0, 1e-3, 4.0, 1e-3])
        m2 = bad_close(f(t, s2, a, c.t_obs, sfr_min=1e-3), f(t, s3, a, c.t_obs, sfr_min=1e-3), 0, 0)
        ctx.outcome(w0)
        return [m, m2]
    ctx.product("normalisation", dict(t=[0, 1, 2, 3], age=[0, 2, 3, 4], t_obs=[12.0, 5.0, 2.5], scale=[10.0, 1e5, 1e-3, 1e25]), meta)


def sweep(ctx, f, t, na, a):
    e = 10 ** R.age_edges(a)
    pts = set()
    for x in list(t) + [q + w for q in t for w in e] + [0.001 + w for w in e] + list((t[1:] + t[:-1]) / 2):
        pts |= {x, np.nextafter(x, 0), np.nextafter(x, 100)}
    pts = np.array(sorted(p for p in pts if p - e[0] > t[0] * (1 + 1e-9)))
    sf = np.array([alph.sfh_family(t)[k] for k in alph.sfh_family(t)])

    def ref4(c):
        w, sl = [], []
        for s, o in zip(c["sfr"], c["t_obs"]):
            x, y = R.age_weights(t, s, a, o)
            w.append(x)
            sl.append(y)
        c["_slack"] = np.array(sl)[:, None]
        return {"w": np.array(w)}
    v4 = jax.jit(jax.vmap(lambda s, o: f(t, s, a, o)))
    ctx.vproduct("t_obs_sweep_" + na, dict(sfr=sf, t_obs=pts), lambda c: {"w": v4(c["sfr"], c["t_obs"])}, ref4,
                 tol={"w": lambda c, w: (1e-8, c["_slack"] * 10)},
                 dom=lambda c: np.array([R.age_weights(t, s, a, o)[1] < 1e-4 for s, o in zip(c["sfr"], c["t_obs"])]))
