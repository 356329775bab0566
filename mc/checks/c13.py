import numpy as np
import jax
from mc.engine import bad_close, opt
import mc.refs as R

SURV = dict(a=0.225, b=8.0, lgk1=-0.5, d=0.145, e=0.08, f=6.5, lgk2=0.7, h=0.005)
REM = dict(a=-1.42, b=7, lgk1=1, d=1.3, e=0.2)
IMF_S = {"CHABRIER": dict(a=0.225, d=0.145), "SALPETER": dict(a=0.13, d=0.055), "KROUPA": dict(a=0.211, d=0.13), "VAN_DOKKUM": dict(a=0.238, d=0.156)}
IMF_R = {"CHABRIER": dict(a=-1.42), "SALPETER": dict(a=-1.67), "KROUPA": dict(a=-1.45), "VAN_DOKKUM": dict(a=-1.4)}


def returned(x, a, b, lgk1, d, e, f, lgk2, h):
    z = R.sig_slope(x, b, a, b, 10.0**lgk1, d, e)
    return R.sigmoid(x, f, 10.0**lgk2, h, z)


def remnant(x, a, b, lgk1, d, e):
    return 10 ** R.sig_slope(x, b, a, b, 10.0**lgk1, d, e)


def run(ctx):
    from dsps.imf import surviving_mstar as S, remnant_mass as Q
    ret = opt("dsps.imf.surviving_mstar", "_returned_mass")
    ages = np.concatenate([np.linspace(0.0, 4.99, 500), np.linspace(5.0, 10.2, 20801 if ctx.thorough else 2081), np.linspace(10.21, 10.5, 30)])
    names = list(IMF_S)

    def table(c):
        ps = getattr(S, c.imf + "_PARAMS")
        pr = getattr(Q, c.imf + "_PARAMS")
        p = [None if dict(ps) == {**SURV, **IMF_S[c.imf]} else "surviving-mass parameters %r" % dict(ps),
             None if dict(pr) == {**REM, **IMF_R[c.imf]} else "remnant parameters %r" % dict(pr)]
        x = ages
        if c.form == "kw":
            s, q = np.asarray(S.surviving_mstar(x, **ps)), np.asarray(Q.remnant_mass(x, **pr))
        elif c.form == "pos":
            s, q = np.asarray(S.surviving_mstar(x, *ps.values())), np.asarray(Q.remnant_mass(x, *pr.values()))
        elif c.form == "scalar":
            x = ages[::40]
            s = np.array([float(S.surviving_mstar(float(y), **ps)) for y in x])
            q = np.array([float(Q.remnant_mass(float(y), **pr)) for y in x])
        else:
            x = ages[::-1].reshape(-1, 1) if c.form == "2d" else ages[::-1].copy()
            s, q = np.asarray(S.surviving_mstar(x, **ps)), np.asarray(Q.remnant_mass(x, **pr))
            if s.shape != x.shape:
                return "shape"
            s, q, x = s.ravel()[::-1], q.ravel()[::-1], ages
        p.append(bad_close(s, 1 - returned(x, **{**SURV, **IMF_S[c.imf]}), 1e-11))
        p.append(bad_close(q, remnant(x, **{**REM, **IMF_R[c.imf]}), 1e-11))
        if not (np.all(s > 0.5) and np.all(s <= 1)):
            p.append("surviving fraction outside (0.5, 1]")
        if not np.all(np.diff(s)[x[:-1] >= 6.0] <= 1e-14):   # the fit itself rises by 3e-5 below 1 Myr
            p.append("surviving fraction increases with age")
        if not (np.all(q >= 0) and np.all(q <= s)):
            p.append("remnant fraction outside [0, surviving]")
        if not np.all(np.diff(q) > -1e-14):
            p.append("remnant fraction decreases with age")
        if ret is not None:
            r = np.asarray(ret(x, *ps.values()))
            p.append(bad_close(r + s, np.ones_like(s), 0, 1e-14))
        ctx.outcome(s, q)
        return p
    ctx.product("imf_tables", dict(imf=names, form=["kw", "pos", "scalar", "reversed", "2d"]), table)

    def default(c):
        x = ages
        ps, pr = S.CHABRIER_PARAMS, Q.CHABRIER_PARAMS
        return [bad_close(S.surviving_mstar(x), np.asarray(S.surviving_mstar(x, **ps)), 0, 1e-15),
                bad_close(Q.remnant_mass(x), np.asarray(Q.remnant_mass(x, **pr)), 0, 1e-15),
                bad_close(S.surviving_mstar(x), 1 - returned(x, **SURV), 1e-11), bad_close(Q.remnant_mass(x), remnant(x, **REM), 1e-11),
                None if dict(S.DEFAULT_PARAMS) == SURV and dict(Q.DEFAULT_PARAMS) == REM else "default parameters changed"]
    ctx.product("default_is_chabrier", dict(x=[0]), default)

    def order(c):
        x = np.array([c.lgage])
        s = {n: float(S.surviving_mstar(x, **getattr(S, n + "_PARAMS"))[0]) for n in names}
        q = {n: float(Q.remnant_mass(x, **getattr(Q, n + "_PARAMS"))[0]) for n in names}
        ctx.outcome(list(s.values()), list(q.values()))
        p = []
        if not s["SALPETER"] >= s["KROUPA"] >= s["CHABRIER"] >= s["VAN_DOKKUM"]:
            p.append("surviving fractions out of order %r" % s)
        if min(q.values()) != q["SALPETER"]:
            p.append("Salpeter remnants not the smallest %r" % q)
        return p
    ctx.product("imf_ordering", dict(lgage=[float(a) for a in np.linspace(7.0, 10.2, 1025 if ctx.thorough else 129)]), order)

    # general parameters follow the sigmoid-slope fit (batched)
    vs = jax.jit(jax.vmap(lambda x, a, b, k, d, e, f, k2, h: S.surviving_mstar(x, a, b, k, d, e, f, k2, h)))
    vq = jax.jit(jax.vmap(lambda x, a, b, k, d, e: Q.remnant_mass(x, a, b, k, d, e)))
    ax = dict(x=np.array([5.0, 6.5, 7.0, 8.0, 9.3, 10.2]), a=np.array([0.225, 0.1, 0.3]), b=np.array([8.0, 7.0]), lgk1=np.array([-0.5, 0.0, 1.0]),
              d=np.array([0.145, 0.05]), e=np.array([0.08, 0.02]), f=np.array([6.5, 6.0]), lgk2=np.array([0.7, 0.0]), h=np.array([0.005, 0.02]))
    ctx.vproduct("surviving_general", ax, lambda c: {"s": vs(*[c[k] for k in ax])}, lambda c: {"s": 1 - returned(*[c[k] for k in ax])}, rtol=1e-11)
    ax2 = {k: ax[k] for k in ("x", "a", "b", "lgk1", "d", "e")}
    ax2["a"] = np.array([-1.42, -1.67, -1.0])
    ax2["d"] = np.array([1.3, 0.5])
    ctx.vproduct("remnant_general", ax2, lambda c: {"q": vq(*[c[k] for k in ax2])}, lambda c: {"q": remnant(*[c[k] for k in ax2])}, rtol=1e-11)
