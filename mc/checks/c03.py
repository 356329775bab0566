import numpy as np
import jax
from mc import alph
from mc.engine import bad_close, Skip
import mc.refs as R

GRIDS = {3: [[-3.0, -2.0, -1.0], [-2.0, -1.9, -1.8], [-4.0, 0.0, 4.0], [-2.0, -1.0, -0.4]],
         4: alph.Z4, 5: [[-3.7, -3.0, -2.5, -2.0, -1.5], [0.0, 0.1, 0.2, 0.3, 0.4], [-9.0, -5.0, -1.0, 3.0, 7.0]]}


def checks(got, want, slack):
    got = np.asarray(got)
    p = []
    if not np.all(np.isfinite(got)):
        return ["not finite"]
    if got.min() < -slack:
        p.append("negative weight %r" % got.min())
    p.append(bad_close(got, want, 1e-9, slack))
    return p


def run(ctx):
    from dsps.sed import calc_lgmet_weights_from_lognormal_mdf as mdf, calc_lgmet_weights_from_lgmet_table as tab

    def good(g):
        return R.edges_ordered(R.bin_edges(np.array(g), -10, 10))

    # 1. metallicity placed on / next to every kernel-support boundary of every bin edge
    scat = np.array([0.1, 0.01, 0.5, 3.0, 1e-4])
    for n, gl in GRIDS.items():
        gl = np.array([g for g in gl if good(g)])
        pts = {0.0, -10.0, 10.0, -9.5, 9.5, -12.0, 13.0, -30.0, 40.0, -2.0, -1.7}
        for g in gl:
            e = R.bin_edges(g, -10, 10)
            for x in list(e) + list(g):
                for h in scat:
                    for m in (-3, -1, 0, 1, 3):
                        pts.add(float(x + m * h))
                    pts.add(float(x + 3.001 * h))
                    pts.add(float(x - 3.001 * h))
        pts = np.array(sorted(pts, key=lambda x: (abs(x + 2), x)))
        v = jax.jit(jax.vmap(mdf))

        def ref(c):
            r = [R.met_weights(a, b, g) for a, b, g in zip(c["lgmet"], c["scatter"], c["grid"])]
            c["_s"] = np.array([x[1] for x in r])[:, None]
            return {"w": np.array([x[0] for x in r])}

        def dom(c):
            # a kernel that lies (to rounding) just outside a bounded interval is ill-conditioned: total
            # probability must be zero or representable
            return np.array([R.met_weights(a, b, g)[1] < 1e-3 for a, b, g in zip(c["lgmet"], c["scatter"], c["grid"])])
        ctx.vproduct("mdf_n%d" % n, dict(grid=gl, scatter=scat, lgmet=pts), lambda c: {"w": v(c["lgmet"], c["scatter"], c["grid"])},
                     ref, tol={"w": lambda c, w: (1e-9, c["_s"])}, dom=dom,
                     inv=lambda c, o: {"finite": np.isfinite(o["w"]), "non-negative": o["w"] >= -c["_s"],
                                       "sum": np.abs(o["w"].sum(1) - 1) < 1e-9 + c["_s"][:, 0]},
                     single=lambda g: {"w": mdf(g.lgmet, g.scatter, g.grid)}, dev=1)

    # 2. every SSP metallicity-grid length, un-batched
    def sizes(c):
        g = np.linspace(-3.7, -1.5, c.n) if c.kind == "lin" else alph.real_lgmet(c.n) if c.n <= 22 else np.linspace(-3.7, -1.5, c.n) ** 3 / 10
        if not good(g):
            raise Skip
        w, s = R.met_weights(c.lgmet, c.scatter, g)
        got = mdf(c.lgmet, c.scatter, g)
        ctx.outcome(got)
        return checks(got, w, s) + [None if got.shape == (c.n,) else "shape"]
    ctx.product("mdf_sizes", dict(n=list(range(3, 23)) + [50, 101, 300], kind=["lin", "real"],
                                  lgmet=[-2.0, -3.7, -1.0, -6.0, 1.0, -11.0, 12.0], scatter=[0.1, 0.01, 1.0]), sizes)

    # 3. metallicity histories: every 4-node history over a 4-letter alphabet
    let = np.array([-2.0, -3.5, -1.0, -9.99])
    zt = np.array(np.meshgrid(*[let] * 4, indexing="ij")).reshape(4, -1).T
    vt = jax.jit(jax.vmap(tab))

    def ref3(c):
        return {"w": np.array([R.met_table_weights(t, z, s, g, a, o) for t, z, s, g, a, o in
                               zip(c["t"], c["zh"], c["scatter"], c["grid"], c["age"], c["t_obs"])])}

    tobs = np.array([10.0, 13.0, 2.0, 0.3, 25.0])
    gr = np.array([g for g in alph.Z4 if good(g)])
    ages = alph.A4[[0, 3, 4, 5]]
    ctx.vproduct("table_histories", dict(t_obs=tobs, scatter=np.array([0.2, 0.02]), grid=gr[:3], age=ages,
                                         t=alph.T4 if ctx.thorough else alph.T4[:2], zh=zt),
                 lambda c: {"w": vt(c["t"], c["zh"], c["scatter"], c["grid"], c["age"], c["t_obs"])}, ref3, rtol=1e-8, atol=1e-9,
                 inv=lambda c, o: {"finite": np.isfinite(o["w"]), "non-negative": o["w"] >= -1e-10,
                                   "columns": np.abs(o["w"].sum(1) - 0.25) < 1e-9},
                 single=lambda g: {"w": tab(g.t, g.zh, g.scatter, g.grid, g.age, g.t_obs)}, dev=1)

    # 3b. a constant history next to every bin edge: every column is the single-metallicity distribution
    pts2 = {}
    for gi, g in enumerate(gr):
        e = R.bin_edges(g, -10, 10)
        pts2[gi] = sorted({float(x + m * h) for x in list(e[1:-1]) + [g[1]] for h in scat for m in (-2, -0.5, 0, 1, 2.5)})
    npt = max(map(len, pts2.values()))
    t2 = np.array([0.1, 1.0, 10.0])
    zc = jax.jit(jax.vmap(lambda z, s, g, a, o: tab(t2, z * np.ones(3), s, g, a, o)))

    def where(c):
        return np.array([pts2[int(i)][int(k) % len(pts2[int(i)])] for i, k in zip(c["gi"], c["k"])])

    def ref3b(c):
        r = [R.met_weights(a, b, gr[int(i)]) for a, b, i in zip(where(c), c["scatter"], c["gi"])]
        c["_s"] = np.array([x[1] for x in r])[:, None, None]
        return {"w": np.array([np.tile(x[0][:, None], (1, 4)) / 4 for x in r])}
    ctx.vproduct("table_constant", dict(gi=np.arange(len(gr)), scatter=np.append(scat, [0.004, 0.03]), k=np.arange(npt), age=ages[:2], t_obs=np.array([11.0, 0.5])),
                 lambda c: {"w": zc(where(c), c["scatter"], gr[c["gi"].astype(int)], c["age"], c["t_obs"])}, ref3b,
                 tol={"w": lambda c, w: (1e-9, c["_s"])},
                 inv=lambda c, o: {"finite": np.isfinite(o["w"]), "columns": np.abs(o["w"].sum(1) - 0.25) < 1e-9 + c["_s"][:, 0]}, dev=1)

    # 4. un-batched, n_met != n_age != n_t, realistic sizes
    def one(c):
        t = alph.time_tables(c.n_t)[c.table]
        zh = {"flat": np.full(c.n_t, -2.0), "rise": np.linspace(-4, -1.2, c.n_t), "step": np.where(np.arange(c.n_t) < c.n_t // 2, -3.0, -1.5)}[c.zh]
        g = alph.real_lgmet(c.n_met)
        a = alph.age_grids(c.n_age)[c.ages]
        got = np.asarray(tab(t, zh, c.scatter, g, a, c.t_obs))
        p = checks(got, R.met_table_weights(t, zh, c.scatter, g, a, c.t_obs), 1e-8)
        p.append(None if got.shape == (c.n_met, c.n_age) else "shape %s" % (got.shape,))
        p.append(bad_close(got.sum(0), np.full(c.n_age, 1 / c.n_age), 1e-9))
        # each column is the stand-alone MDF at that birth metallicity
        z = R.lgmet_at_ages(t, zh, a, c.t_obs)
        for k in {0, c.n_age // 2, c.n_age - 1}:
            p.append(bad_close(got[:, k] * c.n_age, mdf(z[k], c.scatter, g), 1e-7, 1e-9))
        ctx.outcome(got)
        return p
    ctx.product("table_sizes", dict(n_met=[22, 12, 5], n_age=[94, 107, 4, 22, 201], n_t=[50, 2, 22, 300], table=["lin", "log"],
                                    zh=["rise", "flat", "step"], t_obs=[13.0, 1.0, 15.0], ages=["uniform", "uneven"], scatter=[0.1, 0.004] if ctx.thorough else [0.1]), one,
                dom=lambda c: ctx.thorough or (c.n_met, c.n_age, c.n_t).count(22) >= 1 or (c.n_met, c.n_age, c.n_t) in ((12, 107, 50), (5, 4, 2), (12, 201, 300)))

