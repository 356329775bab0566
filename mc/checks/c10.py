import importlib
import numpy as np
import jax
from mc.engine import bad_close, opt
import mc.refs as R


def waves(thorough):
    w = np.unique(np.concatenate([
        np.linspace(0.0912, 0.3, 60), np.linspace(0.3, 3.0, 90),
        [0.15, np.nextafter(0.15, 0), np.nextafter(0.15, 1), 0.1499, 0.1501, 0.55, 0.2175, np.nextafter(0.63, 0), np.nextafter(0.63, 1),
         0.62, 0.64, 2.2, 2.19, 2.21, 1.0, 0.12, 0.18, 0.0912, 3.0]]))
    return w[w != 0.63]     # both published branches include the 0.63 micron pivot


def run(ctx):
    from dsps.dust import att_curves as A
    from dsps.dust.utils import get_filter_effective_wavelength as eff
    ft = opt("dsps.dust.att_curves", "_frac_transmission_from_k_lambda")
    l02c00 = opt("dsps.dust.att_curves", "_l02_below_c00_above")
    w = waves(ctx.thorough)
    avs = np.array([1.0, 0.0, 0.1, 3.0, 1e-6, 50.0, 1e3, 1e-12])
    amps = np.array([1.0, 0.0, 5.0, -1.0, 0.3, -12.0, 60.0, -2.7])
    slopes = np.array([-0.3, 0.0, 0.4, -1.2, 1.0, -3.0, 2.5])
    cens = np.array([0.2175, 0.18, 0.3, 0.1, 1.2])
    wid = np.array([0.035, 0.01, 0.1, 0.6, 0.001])

    v = {n: jax.jit(jax.vmap(getattr(A, n + "_att_curve"), in_axes=(None, 0))) for n in ("calzetti00", "leitherer02")}
    kr = {"calzetti00": R.k_c00, "leitherer02": R.k_l02}

    def impl(c):
        o = {}
        for n in v:
            o[n] = v[n](w, c["av"])
        return o

    def ref(c):
        return {n: np.maximum(c["av"][:, None] * kr[n](w)[None] / 4.05, 0) for n in v}
    ctx.vproduct("parameter_free_curves", dict(av=np.concatenate([avs, np.linspace(0.01, 6, 100)])), impl, ref, rtol=1e-11, atol=1e-13,
                 inv=lambda c, o: {"non-negative " + n: o[n] >= 0 for n in o} | {"zero at Av=0 " + n: (c["av"][:, None] > 0) | (o[n] == 0) for n in o},
                 single=lambda g: {n: getattr(A, n + "_att_curve")(w, g.av) for n in v}, dev=1)

    vn = {n: jax.jit(jax.vmap(getattr(A, n + "_k_att_curve"), in_axes=(None, 0, 0, 0, 0, 0))) for n in ("noll09", "sbl18")}
    vk = {n: jax.jit(jax.vmap(getattr(A, n + "_k_lambda"), in_axes=(None, 0, 0, 0, 0))) for n in ("noll09", "sbl18")}
    rk = {"noll09": R.k_noll, "sbl18": R.k_sbl}

    def impl2(c):
        o = {}
        for n in vn:
            o[n] = vn[n](w, c["av"], c["amp"], c["slope"], c["cen"], c["wid"])
            o[n + "_k"] = vk[n](w, c["amp"], c["slope"], c["cen"], c["wid"])
        return o

    def ref2(c):
        o = {}
        for n in vn:
            k = np.array([rk[n](w, *x) for x in zip(c["amp"], c["slope"], c["cen"], c["wid"])])
            o[n + "_k"] = k
            o[n] = c["av"][:, None] * k / 4.05
        return o
    ctx.vproduct("bump_and_slope_curves", dict(av=avs, amp=amps, slope=slopes, cen=cens, wid=wid), impl2, ref2, rtol=1e-10, atol=1e-12,
                 inv=lambda c, o: {"non-negative " + n: o[n] >= 0 for n in o} | {"zero at Av=0 " + n: (c["av"][:, None] > 0) | (o[n] == 0) for n in vn},
                 single=lambda g: {n: getattr(A, n + "_k_att_curve")(w, g.av, g.amp, g.slope, g.cen, g.wid) for n in vn}, dev=1)

    # default bump position and width
    def defaults(c):
        p = [bad_close(A.noll09_k_lambda(w, c.amp, c.slope), R.k_noll(w, c.amp, c.slope), 1e-10, 1e-12),
             bad_close(A.sbl18_k_lambda(w, c.amp, c.slope), R.k_sbl(w, c.amp, c.slope), 1e-10, 1e-12),
             bad_close(A.noll09_k_att_curve(w, c.av, c.amp, c.slope), c.av * R.k_noll(w, c.amp, c.slope) / 4.05, 1e-10, 1e-12),
             bad_close(A.sbl18_k_att_curve(w, c.av, c.amp, c.slope), c.av * R.k_sbl(w, c.amp, c.slope) / 4.05, 1e-10, 1e-12),
             bad_close(A.calzetti00_k_lambda(w), R.k_c00(w), 1e-11, 1e-12), bad_close(A.leitherer02_k_lambda(w), R.k_l02(w), 1e-11),
             bad_close(A.triweight_k_lambda(w), R.k_tw(w), 1e-10),
             bad_close(A.power_law_vband_norm(w, c.slope), (w / 0.55) ** c.slope, 1e-12)]
        if l02c00:
            p.append(bad_close(l02c00(w), np.where(w > 0.15, R.k_c00(w), R.k_l02(w)), 1e-11, 1e-12))
            p.append(bad_close(l02c00(w, xc=0.2), np.where(w > 0.2, R.k_c00(w), R.k_l02(w)), 1e-11, 1e-12))
        for k in (0, 5, 77, len(w) - 1):      # scalar wavelength == array wavelength
            p.append(bad_close(A.sbl18_k_lambda(w[k], c.amp, c.slope), R.k_sbl(w[k], c.amp, c.slope), 1e-10, 1e-12))
            p.append(bad_close(A.noll09_k_lambda(w[k:k + 1], c.amp, c.slope), R.k_noll(w[k:k + 1], c.amp, c.slope), 1e-10, 1e-12))
        ctx.outcome(A.sbl18_k_lambda(w, c.amp, c.slope))
        return p
    ctx.product("defaults", dict(av=[1.0, 0.0, 2.5], amp=list(amps), slope=list(slopes)), defaults)

    def twp(c):
        return bad_close(A.triweight_k_lambda(w, xtp=c.xtp, ytp=c.ytp, x0=c.x0, tw_h=c.h, lo=c.lo, hi=c.hi),
                         R.k_tw(w, c.xtp, c.ytp, c.x0, c.h, c.lo, c.hi), 1e-10)
    ctx.product("triweight_params", dict(xtp=[-1.0, 0.2], ytp=[1.15, 0.0], x0=[0.5, -0.5], h=[0.5, 0.1], lo=[-0.65, 0.3], hi=[-1.95, -0.1]), twp)

    # transmitted fraction
    if ft:
        ks = np.array([4.05, 0.0, 1.0, 12.0, -3.0, 100.0, 1e-5])
        fl = np.array([0.0, 0.1, 0.5, 1.0, 1e-3, 0.999])
        av2 = np.concatenate([avs, np.linspace(0, 8, 60)])
        vf = jax.jit(jax.vmap(ft))
        ctx.vproduct("transmission", dict(floor=fl, k=ks, av=av2), lambda c: {"f": vf(c["k"], c["av"], c["floor"])},
                     lambda c: {"f": c["floor"] + (1 - c["floor"]) * 10 ** (-0.4 * np.maximum(c["k"] * c["av"] / 4.05, 0))}, rtol=1e-12,
                     atol=1e-14, inv=lambda c, o: {"within [floor, 1]": (o["f"] >= c["floor"] - 1e-15) & (o["f"] <= 1 + 1e-15),
                                                   "no dust": (c["av"] > 0) | (o["f"] == 1)},
                     single=lambda g: {"f": ft(g.k, g.av, g.floor)})

        def mono(c):
            a = np.sort(av2)
            k = R.k_sbl(w, c.amp, c.slope)
            T = np.array([np.asarray(ft(k, x, c.floor)) for x in a])
            ctx.outcome(T)
            one = np.asarray(ft(k, 0.7))
            return [None if np.all(np.diff(T, axis=0) <= 1e-15) else "transmission increases with Av",
                    bad_close(one, 10 ** (-0.4 * k * 0.7 / 4.05), 1e-12)]
        ctx.product("monotone_in_av", dict(amp=[1.0, -1.0, 5.0], slope=[-0.3, 0.4], floor=[0.0, 0.2]), mono)

    # effective wavelength
    fw = np.array([[4000., 5000., 6000., 7000.], [900., 901., 5000., 5001.], [1., 2., 3., 4.], [10000., 20000., 20500., 30000.]])
    tl = np.array([1.0, 0.0, 0.3])
    tr = np.array([x for x in np.array(np.meshgrid(*[tl] * 4, indexing="ij")).reshape(4, -1).T if x[0] + x[1] + x[2] + x[3] > 0])
    zz = np.array([0.0, 0.5, 1.0, 6.0, 1e-4, 19.0])
    ve = jax.jit(jax.vmap(eff))

    def refe(c):
        n = R.trapz_v(c["wave"], c["trans"])
        return {"e": R.trapz_v(c["wave"], c["trans"] * c["wave"]) / n / (1 + c["z"])}
    ctx.vproduct("effective_wavelength", dict(z=zz, wave=fw, trans=tr), lambda c: {"e": ve(c["wave"], c["trans"], c["z"])}, refe, rtol=1e-11,
                 inv=lambda c, o: {"inside the band": (o["e"] * (1 + c["z"]) >= c["wave"][:, 0] * (1 - 1e-12)) & (o["e"] * (1 + c["z"]) <= c["wave"][:, -1] * (1 + 1e-12))},
                 single=lambda g: {"e": eff(g.wave, g.trans, g.z)})

    def effm(c):
        x = np.linspace(3000., 9000., c.n)
        t = {"gauss": np.exp(-0.5 * ((x - 5500) / 700) ** 2), "top": np.where((x > 4000) & (x < 6000), 1.0, 0.0) + 1e-6, "ramp": x / 9000}[c.t]
        a = float(eff(x, t, c.z))
        ctx.outcome(a)
        return [bad_close(a, R.trapz(x, t * x) / R.trapz(x, t) / (1 + c.z), 1e-10), *[bad_close(eff(x, k * t, c.z), a, 1e-10) for k in (1e-3, 1e-40, 1e8)]]
    ctx.product("effective_wavelength_sizes", dict(n=[2, 3, 4, 5, 6, 7, 50, 51, 257, 1000, 3000], t=["gauss", "top", "ramp"], z=[0.0, 0.3, 2.0]), effm)

    # bump amplitude against slope (Kriek & Conroy 2013)
    eb = getattr(importlib.import_module("dsps.dust.att_curves"), "_get_eb_from_delta", None)
    if eb is None:
        ctx.skip("bump_relation", "helper renamed")
    else:
        def rel(c):
            d = c.d if c.n is None else np.linspace(-1.5, 1.0, c.n) + c.d
            x = np.asarray(eb(d))
            ctx.outcome(x)
            return [None if x.shape == np.shape(d) else "shape", bad_close(x, 0.85 - 1.9 * np.asarray(d), 1e-12, 1e-14)]
        ctx.product("bump_relation", dict(n=[None, 1, 2, 3, 50], d=list(np.round(np.linspace(-2, 2, 41), 6)) + [0.85 / 1.9, 1e-9, -1e-9]), rel)
