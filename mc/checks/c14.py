import itertools
import numpy as np
import jax
from mc.engine import bad_close
import mc.refs as R

SOLAR = np.log10(0.012)
BOUNDS = [(-1.0, 0.25), (10.25, 10.75), (0.5, 2.0), (0.1, 1.0), (0.0, 0.3), (-2.0, -1.0), (0.0, 0.5), (-1.5, -0.5), (0.0, 0.5)]
NAMES = ["mzr_t0_ytp", "mzr_t0_x0", "mzr_t0_k", "mzr_t0_slope_lo", "mzr_t0_slope_hi", "c0_y_at_tlook_c", "c1_y_at_tlook_c",
         "c0_early_time_slope", "c1_early_time_slope"]
DEF = [0.05, 10.5, 1.0, 0.4, 0.1, -1.455, 0.13, -0.959, 0.067242]
LO, HI = np.array(BOUNDS).T
K = 0.1


def t0(m, ytp, xtp, x0, k, slo, shi):
    return R.sig_slope(m, xtp, ytp, x0, k, slo, shi) + SOLAR


def evol(m, t, c0, c1, tc, e0, e1):
    y = c0 + c1 * m
    tl = np.maximum(12.5 - t, 0.0)
    z = R.sig_slope(tl, tc, y, tc, 1.6, y / tc, e0 + e1 * m)
    return np.minimum(z, 0.0)


def bound_ref(u):
    """u (...,9) -> bounded parameters"""
    out = R.sigmoid(u, 0.5 * (LO + HI), K, LO, HI)
    out[..., 4] = R.sigmoid(u[..., 4], 0.0, K, LO[4], out[..., 3])
    return out


def run(ctx):
    from dsps.metallicity import mzr, umzr
    from dsps.metallicity.defaults import DEFAULT_MET_PARAMS
    PT, UT = umzr.MZRParams, umzr.MZRUParams

    def consts(c):
        p = [None if list(PT._fields) == NAMES and list(UT._fields) == ["u_" + n for n in NAMES] else "field names",
             bad_close(list(umzr.DEFAULT_MZR_PARAMS), DEF, 0, 1e-15),
             bad_close([umzr.MZR_PBOUNDS._asdict()[n] for n in NAMES], BOUNDS, 0, 1e-15),
             bad_close(DEFAULT_MET_PARAMS, DEF[:7] + [8.44] + DEF[7:] + [0.1], 0, 1e-15),
             bad_close(list(umzr.get_bounded_mzr_params(umzr.DEFAULT_MZR_U_PARAMS)), DEF, 1e-10)]
        return p
    ctx.product("defaults", dict(x=[0]), consts)

    # bounded <- unbounded: pairwise grids of the 9 unbounded parameters over many decades of u
    ual = np.array([0.0, -30.0, 30.0, 3.0, -150.0, 150.0, 1e3, -1e3, 1e6, -1e6])
    bnd = jax.jit(jax.vmap(lambda u: jax.numpy.stack(list(umzr.get_bounded_mzr_params(UT(*u))))))
    ub = jax.jit(jax.vmap(lambda p: jax.numpy.stack(list(umzr.get_unbounded_mzr_params(PT(*p))))))

    def vec(c, base):
        u = np.repeat(np.asarray(base, float)[None], len(c["i"]), 0)
        u[np.arange(len(u)), c["i"]] = c["a"]
        u[np.arange(len(u)), c["j"]] = c["b"]
        return u

    bases = {"zero": np.zeros(9), "mid": 0.5 * (LO + HI), "mixed": np.array([5., 2, -7, 11, -3, 1, 4, -6, 9]), "far": np.array([40., -35, 60, -50, 45, -20, 10, 30, -55])}
    bk = list(bases)
    ix = np.arange(9)

    def uvec(c):
        return vec(c, bases["zero"]) + np.array([bases[bk[k]] for k in c["base"]])

    def binv(c, o):
        b = o["p"]
        hi = np.where(np.arange(9) == 4, b[:, 3:4], HI)
        return {"inside bounds": (b >= LO) & (b <= hi + 2e-15 * (1 + np.abs(hi))), "finite": np.isfinite(b), "slope_hi<=slope_lo": b[:, 4] <= b[:, 3] + 1e-15}
    ctx.vproduct("bounded_from_unbounded", dict(base=np.arange(4), i=ix, j=ix, a=ual if ctx.thorough else ual[:7], b=ual if ctx.thorough else ual[:7]),
                 lambda c: {"p": bnd(uvec(c))}, lambda c: {"p": bound_ref(uvec(c))}, rtol=1e-12, atol=1e-13, inv=binv,
                 single=lambda g: {"p": np.array([float(x) for x in umzr.get_bounded_mzr_params(UT(*uvec({k: np.array([v]) for k, v in g.items()})[0]))])}, dev=1)
    # each parameter depends on its own partner only: exact equality of the others
    u0s = [np.zeros(9), np.array([5., 2, -7, 11, -3, 1, 4, -6, 9])]

    def own(c):
        u = np.array(c.u0)
        u2 = u.copy()
        u2[c.i] = c.v
        a = np.array([float(x) for x in umzr.get_bounded_mzr_params(UT(*u))])
        b = np.array([float(x) for x in umzr.get_bounded_mzr_params(UT(*u2))])
        ch = set(np.nonzero(a != b)[0])
        ctx.outcome(b)
        return None if ch <= ({c.i, 4} if c.i == 3 else {c.i}) else "changing u[%d] changed %s" % (c.i, sorted(map(int, ch)))
    ctx.product("own_partner", dict(u0=u0s, i=range(9), v=[20.0, -20.0, 1e4]), own)

    # round trip bounded -> unbounded -> bounded over pairwise grids of interior fractions
    fr = np.array([0.5, 0.2, 0.8, 1e-3, 1 - 1e-3, 1e-6, 1 - 1e-6])

    def pvec(c):
        
        f = np.array([[0.5] * 9, [0.3, 0.7, 0.2, 0.6, 0.4, 0.8, 0.1, 0.9, 0.35]])[c["base"]]
        f[np.arange(len(f)), c["i"]] = c["a"]
        f[np.arange(len(f)), c["j"]] = c["b"]
        p = LO + (HI - LO) * f
        p[:, 4] = LO[4] + (np.minimum(p[:, 3], 0.3) - LO[4]) * f[:, 4]
        return p

    def uref(p):
        def inv(y, x0, lo, hi):
            return x0 - np.log((hi - lo) / (y - lo) - 1) / K
        u = inv(p, 0.5 * (LO + HI), LO, HI)
        u[:, 4] = inv(p[:, 4], 0.0, LO[4], p[:, 3])
        return u
    with np.errstate(all="ignore"):
        ctx.vproduct("round_trip", dict(base=np.arange(2), i=ix, j=ix, a=fr if ctx.thorough else fr[:5], b=fr if ctx.thorough else fr[:5]),
                     lambda c: (lambda u: {"u": u, "p": bnd(u)})(ub(pvec(c))), lambda c: {"u": uref(pvec(c)), "p": pvec(c)}, rtol=1e-6, atol=1e-9,
                     tol={"p": (1e-8, 1e-9), "u": (1e-6, 1e-6)}, inv=lambda c, o: {"finite": np.isfinite(o["u"])})
    # unbounded -> bounded -> unbounded in the unsaturated range
    uu = np.array([0.0, 10.0, -10.0, 60.0, -60.0])
    ctx.vproduct("round_trip_u", dict(base=np.arange(3), i=ix, j=ix, a=uu, b=uu), lambda c: {"u": ub(bnd(uvec(c)))}, lambda c: {"u": uvec(c)}, rtol=1e-6, atol=1e-4)

    # model values over the parameter box (corners + mid), masses, times
    m = np.array([10.0, 6.0, 8.0, 9.0, 10.5, 11.2, 12.5])
    t = np.array([10.0, 0.001, 1.0, 4.06, 5.5, 12.4999, 12.5, 12.5001, 13.8, 20.0])
    vz = jax.jit(jax.vmap(lambda m, t, p: (umzr.mzr_model(m, t, *p), umzr.mzr_model_t0(m, *p[:5]), umzr.mzr_evolution_model(m, t, *p[5:]))))
    vm = jax.jit(jax.vmap(lambda m, t, p, tc, x0: (mzr.mzr_model(m, t, p[0], x0, *p[2:7], tc, *p[7:]), mzr.mzr_model_t0(m, p[0], x0, *p[2:5]),
                                                   mzr.mzr_evolution_model(m, t, *p[5:7], tc, *p[7:]))))
    lv = np.array([0.5, 0.0, 1.0])
    cfgs = [list(x) for x in itertools.product(range(3), repeat=9)] if ctx.thorough else \
        [list(x) for x in itertools.product(range(2), repeat=9)] + [list(x) for x in itertools.product([0, 2], repeat=9)]
    cfgs = np.array(cfgs)
    box = LO + (HI - LO) * lv[cfgs]
    box[:, 4] = LO[4] + (np.minimum(box[:, 3], 0.3) - LO[4]) * lv[cfgs[:, 4]]
    box = np.vstack([[DEF], box])
    import jax.numpy as jnp

    def uimpl(c):
        z, a, e = vz(jnp.asarray(c["m"]), jnp.asarray(c["t"]), jnp.asarray(c["p"]))
        return {"z": z, "t0": a, "evol": e}

    def cols(p):
        return [p[:, k] for k in range(9)]

    def uref2(c):
        q = cols(c["p"])
        a = t0(c["m"], q[0], 10.5, q[1], q[2], q[3], q[4])
        e = evol(c["m"], c["t"], q[5], q[6], 8.44, q[7], q[8])
        return {"z": a + e, "t0": a, "evol": e}

    def zinv(c, o):
        return {"finite": np.isfinite(o["z"]), "evolution never positive": o["evol"] <= 0,
                "sum": np.abs(o["z"] - o["t0"] - o["evol"]) <= 1e-13,
                "zero for the defaults from 12.5 Gyr": (c["t"] < 12.5) | (np.abs(c["p"] - DEF).max(axis=1) > 0) | (o["evol"] == 0)}
    ctx.vproduct("umzr_model", dict(m=m, t=t, p=box), uimpl, uref2, rtol=1e-12, atol=1e-12, inv=zinv,
                 single=lambda g: {"z": umzr.mzr_model(g.m, g.t, *[float(x) for x in g.p])}, dev=1)

    def bimpl(c):
        z, a, e = vm(jnp.asarray(c["m"]), jnp.asarray(c["t"]), jnp.asarray(c["p"]), jnp.asarray(c["tc"]), jnp.asarray(c["x0"]))
        return {"z": z, "t0": a, "evol": e}

    def bref(c):
        q = cols(c["p"])
        a = t0(c["m"], q[0], c["x0"], c["x0"], q[2], q[3], q[4])
        e = evol(c["m"], c["t"], q[5], q[6], c["tc"], q[7], q[8])
        return {"z": a + e, "t0": a, "evol": e}
    sub = box if ctx.thorough else box[:257:4]
    ctx.vproduct("mzr_model", dict(m=m, t=t, p=sub, tc=np.array([8.44, 6.0]), x0=np.array([10.5, 10.25, 10.75])), bimpl, bref, rtol=1e-12, atol=1e-12,
                 inv=lambda c, o: {k: v for k, v in zinv(c, o).items() if "default" not in k},
                 single=lambda g: {"z": mzr.mzr_model(g.m, g.t, g.p[0], g.x0, *g.p[2:7], g.tc, *g.p[7:])}, dev=1)

    # constancy after 12.5 Gyr, monotonicity for the defaults, module parity
    D = list(umzr.DEFAULT_MZR_PARAMS)
    B = list(mzr.DEFAULT_MET_PDICT.values())[:-1]
    mm = np.linspace(6, 12.5, 261 if not ctx.thorough else 1301)
    tt = np.concatenate([np.linspace(0.001, 12.5, 201 if not ctx.thorough else 1001), [12.5001, 13, 13.8, 20]])

    def row(c):
        f, P = (umzr.mzr_model, D) if c.mod == "umzr" else (mzr.mzr_model, B)
        z = np.asarray(f(mm, c.t, *P))
        p = [None if np.all(np.diff(z) >= -1e-12) else "metallicity decreases with mass at t=%r" % c.t]
        if c.t >= 12.5:
            p.append(bad_close(z, np.asarray((umzr if c.mod == "umzr" else mzr).mzr_model_t0(mm, *P[:5])), 0, 1e-14))
        other = np.asarray(mzr.mzr_model(mm, c.t, *B))
        p.append(bad_close(z, other, 0, 1e-12))
        ctx.outcome(z[::20])
        return p
    ctx.product("monotone_in_mass", dict(mod=["mzr", "umzr"], t=[float(x) for x in tt]), row)

    def col(c):
        f, P = (umzr.mzr_model, D) if c.mod == "umzr" else (mzr.mzr_model, B)
        z = np.asarray(f(c.m, tt, *P))
        ctx.outcome(z[::10])
        return [None if c.m > 9 or np.all(np.diff(z) >= -1e-12) else "metallicity decreases with time",
                None if z[tt >= 12.5].max() - z[tt >= 12.5].min() < 1e-13 else "metallicity changes after 12.5 Gyr",
                bad_close(z, t0(c.m, DEF[0], 10.5, *DEF[1:5]) + evol(c.m, tt, DEF[5], DEF[6], 8.44, DEF[7], DEF[8]), 1e-12, 1e-12)]
    ctx.product("monotone_in_time", dict(mod=["mzr", "umzr"], m=[float(x) for x in mm]), col)

    # broadcasting: (mass, time) given as scalar/array/2-d grid
    def forms(c):
        f, P = (umzr.mzr_model, D) if c.mod == "umzr" else (mzr.mzr_model, B)
        M = np.array([7.0, 9.5, 11.0])
        T = np.array([2.0, 6.0, 13.0, 14.0])
        want = t0(M[:, None], DEF[0], 10.5, *DEF[1:5]) + evol(M[:, None], T[None], DEF[5], DEF[6], 8.44, DEF[7], DEF[8])
        if c.form == "2d":
            return bad_close(f(M[:, None], T[None], *P), want, 1e-12)
        if c.form == "mass":
            return [bad_close(f(M, float(x), *P), want[:, k], 1e-12) for k, x in enumerate(T)]
        if c.form == "time":
            return [bad_close(f(float(x), T, *P), want[k], 1e-12) for k, x in enumerate(M)]
        return [bad_close(f(float(M[i]), float(T[j]), *P), want[i, j], 1e-12) for i in range(3) for j in range(4)]
    ctx.product("call_forms", dict(mod=["mzr", "umzr"], form=["2d", "mass", "time", "scalar"]), forms)

    # random in-bounds draws are reproducible, in bounds
    def ran(c):
        k = jax.random.PRNGKey(c.seed)
        a = [float(x) for x in umzr.get_ran_t0_params(k)]
        b = [float(x) for x in umzr.get_ran_t0_params(k)]
        p = [None if a == b else "not reproducible"]
        for v, (lo, hi) in zip(a, BOUNDS[:5]):
            p.append(None if lo <= v <= hi else "draw %r outside [%r,%r]" % (v, lo, hi))
        ctx.outcome(a)
        return p
    ctx.product("random_t0_params", dict(seed=range(20)), ran)
