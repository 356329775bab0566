import numpy as np
import jax
from mc.engine import bad_close, opt
import mc.refs as R


def run(ctx):
    from dsps.dust import blackbody_freq_density as bn, blackbody_wave_density as bl
    nu = np.unique(np.concatenate([np.logspace(3, 21, 181 if not ctx.thorough else 1801), np.logspace(12, 16, 81), [5e14, 1e15]]))
    wv = np.unique(np.concatenate([np.logspace(-3, 11, 141 if not ctx.thorough else 1401), np.logspace(2, 6, 81), [5000., 1e4]]))
    T = np.unique(np.concatenate([np.logspace(0.3, 8, 30), [3.0, 5778.0, 1e4, 2.725]]))
    nu, wv, T = nu[np.argsort(abs(np.log(nu / 5e14)))], wv[np.argsort(abs(np.log(wv / 5e3)))], T[np.argsort(abs(np.log(T / 5778)))]
    TINY = 1e-290

    for name, f, ref, xs, key in (("frequency", bn, R.bb_nu, nu, "nu"), ("wavelength", bl, R.bb_lam, wv, "wave")):
        v = jax.jit(jax.vmap(f))
        g0 = jax.jit(jax.vmap(jax.grad(f, 0)))
        g1 = jax.jit(jax.vmap(jax.grad(f, 1)))
        j1 = jax.jit(jax.vmap(lambda x, t: jax.jvp(lambda tt: f(x, tt), (t,), (1.0,))[1]))

        def impl(c):
            a = (c[key], c["T"])
            return {"B": v(*a), "dx": g0(*a), "dT": g1(*a), "dTf": j1(*a)}

        def rf(c, ref=ref, key=key):
            x, t = c[key], c["T"]
            B = ref(x, t)
            q = R.HP * x / (R.KB * t) if key == "nu" else R.HP * R.CL / (R.KB * t * x * 1e-10)
            with np.errstate(over="ignore"):
                y = q / -np.expm1(-q)          # x e^x / (e^x - 1)
            c["_d"] = B * (3 + y) / x if key == "nu" else B * (5 + y) / x
            dx = B * (3 - y) / x if key == "nu" else B * (y - 5) / x
            return {"B": B, "dT": B * y / t, "dTf": B * y / t, "dx": dx}

        # exp(-x) amplifies the rounding of x: relative error ~ x * 1e-16
        def tolB(c, w, key=key):
            q = R.HP * c[key] / (R.KB * c["T"]) if key == "nu" else R.HP * R.CL / (R.KB * c["T"] * c[key] * 1e-10)
            return 1e-11 + 5e-16 * q, TINY
        ctx.vproduct(name, {"T": T, key: xs}, impl, rf,
                     tol={"B": tolB, "dT": lambda c, w: (tolB(c, w)[0] * 3 + 1e-9, 1e-285), "dTf": lambda c, w: (tolB(c, w)[0] * 3 + 1e-9, 1e-285),
                          "dx": lambda c, w: (0, (tolB(c, w)[0] * 3 + 1e-9) * c["_d"] + 1e-275)},
                     inv=lambda c, o: {"finite": np.isfinite(o["B"]), "non-negative": o["B"] >= 0,
                                       "finite derivatives": np.isfinite(o["dT"]) & np.isfinite(o["dTf"]) & np.isfinite(o["dx"])},
                     single=lambda g, f=f, key=key: {"B": f(g[key], g["T"])}, dev=1)

    # monotone in temperature; nu/lambda relation; array calls; scalar kinds
    def arr(c):
        Ts = np.sort(T)
        p = []
        x = np.sort(nu if c.kind == "nu" else wv)
        f = bn if c.kind == "nu" else bl
        M = np.array([np.asarray(f(x, t)) for t in Ts[::c.step]])
        # rounding of x=h nu/kT scatters B relatively by ~ x * 1e-16
        if not np.all(M[1:] >= M[:-1] * (1 - 1e-9)):
            p.append("density decreases with temperature")
        for i in (0, len(Ts[::c.step]) // 2, -1):
            p.append(bad_close(M[i], (R.bb_nu if c.kind == "nu" else R.bb_lam)(x, Ts[::c.step][i]), 1e-9, TINY))
        lam = np.sort(wv)
        n = R.CL / (lam * 1e-10)
        t = Ts[::c.step][len(Ts[::c.step]) // 2]
        p.append(bad_close(np.asarray(bl(lam, t)), np.asarray(bn(n, t)) * R.CL / (lam * 1e-10) ** 2 * 1e-10, 1e-9, TINY))
        ctx.outcome(M)
        return p
    ctx.product("arrays", dict(kind=["nu", "wave"], step=[1, 3]), arr)

    def kinds(c):
        f, ref, x = (bn, R.bb_nu, c.x * (10 ** 12 if c.kind == "nu" else 100)) if c.kind == "nu" else (bl, R.bb_lam, c.x * 100)
        x = {"int": int(x), "float": float(x), "np_int": np.int64(x), "np_f64": np.float64(x), "arr_int": np.array([x, 2 * x]),
             "arr_float": np.array([x, 2 * x], float), "0d": np.array(float(x))}[c.xk]
        t = {"int": int(c.T), "float": float(c.T), "np_int": np.int32(c.T), "np_f64": np.float64(c.T)}[c.tk]
        w = ref(np.asarray(x, float), float(c.T))
        got = f(x, t)
        ctx.outcome(got)
        return bad_close(got, w, 1e-10, TINY)
    ctx.product("argument_kinds", dict(kind=["nu", "wave"], xk=["float", "int", "np_int", "np_f64", "arr_int", "arr_float", "0d"],
                                       tk=["float", "int", "np_int", "np_f64"], x=[30, 500, 7], T=[5000, 300]), kinds)

    # peaks and SI kernels used by the module itself
    pf, pw = opt("dsps.dust.blackbody", "_jax_bb_frequency_peak"), opt("dsps.dust.blackbody", "_jax_bb_wavelength_peak")
    if pf and pw:
        def peak(c):
            x = np.linspace(0.9, 1.1, 401) * float(pf(c.T))
            k = x[np.argmax(R.bb_nu(x, c.T))]
            lam = np.linspace(0.9, 1.1, 401) * float(pw(c.T)) * 1e10
            kl = lam[np.argmax(R.bb_lam(lam, c.T))]
            return [bad_close(pf(c.T), k, 2e-3), bad_close(float(pw(c.T)) * 1e10, kl, 2e-2)]
        ctx.product("peaks", dict(T=[5778.0, 100.0, 1e6]), peak)
