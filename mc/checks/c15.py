import itertools
import numpy as np
import jax
import jax.numpy as jnp
from mc import alph
from mc.engine import bad_close, opt, Skip
import mc.refs as R

K = 0.1


def params_ref(u):
    u = np.asarray(u, float)
    fb = R.sigmoid(u[..., 0], -2.0, K, -8.0, -1.0)
    pk = R.sigmoid(u[..., 1], 6.5, K, 5.0, 8.0)
    lo = pk + 1.0
    mx = R.sigmoid(u[..., 2], 0.5 * (9.0 + lo), K, lo, 9.0)
    return np.stack([fb, pk, mx], -1)


def burst_ref(lgyr, pk, mx):
    lgyr, pk, mx = np.asarray(lgyr, float), np.asarray(pk)[..., None], np.asarray(mx)[..., None]
    h = (2 * (mx - pk)) / 6
    w = R.tw_pdf(lgyr, pk, h)
    s = w.sum(-1, keepdims=True)
    with np.errstate(all="ignore"):
        return np.where(s > 0, w / s, 0.0)


def comb_ref(lgfb, pk, mx, smooth, lgage):
    fb = 10.0 ** np.asarray(lgfb)[..., None]
    return fb * burst_ref(np.asarray(lgage) + 9.0, pk, mx) + (1 - fb) * smooth


def run(ctx):
    from dsps.sfh import diffburst as D
    gp, gu = opt("dsps.sfh.diffburst", "_get_params_from_u_params"), opt("dsps.sfh.diffburst", "_get_u_params_from_params")
    pb = opt("dsps.sfh.diffburst", "_pureburst_age_weights_from_params")
    pbu = opt("dsps.sfh.diffburst", "_pureburst_age_weights_from_u_params")
    cb, cbu = opt("dsps.sfh.diffburst", "_compute_bursty_age_weights_from_params"), opt("dsps.sfh.diffburst", "_compute_bursty_age_weights_from_u_params")
    ctx.product("defaults", dict(x=[0]), lambda c: [
        None if tuple(D.DEFAULT_BURST_PARAMS) == (-3.0, 5.5, 7.0) and D.DEFAULT_BURST_PARAMS._fields == ("lgfburst", "lgyr_peak", "lgyr_max") else "defaults",
        bad_close(params_ref(np.array(D.DEFAULT_BURST_U_PARAMS)), [-3.0, 5.5, 7.0], 1e-9),
        None if D.DEFAULT_BURST_U_PARAMS._fields == ("u_lgfburst", "u_lgyr_peak", "u_lgyr_max") else "unbounded defaults"])

    # parameters: bounded, exact, invertible
    base = [0.0, 1.0, -1.0, 5.0, -5.0, 20.0, -20.0, 60.0, -60.0, 120.0, -120.0, 300.0, -300.0, 1e3, -1e3, 1e5, -1e5]
    base = sorted(set(base + list(np.linspace(-150, 150, 61 if ctx.thorough else 31))), key=abs)
    ua = np.array(base)
    if gp is not None and gu is not None:
        vg = jax.jit(jax.vmap(lambda a, b, c: jnp.stack(list(gp(D.BurstUParams(a, b, c))))))
        vu = jax.jit(jax.vmap(lambda p: jnp.stack(list(gu(D.BurstParams(*p))))))
        st = lambda c: np.stack([c["fb"], c["pk"], c["mx"]], -1)
        e = 4e-15

        def pinv(c, o):
            p = o["p"]
            return {"burst fraction in bounds": (p[:, 0] >= -8 - e) & (p[:, 0] <= -1 + e), "peak in bounds": (p[:, 1] >= 5 - e) & (p[:, 1] <= 8 + e),
                    "max in bounds": (p[:, 2] >= p[:, 1] + 1 - e) & (p[:, 2] <= 9 + e)}
        ctx.vproduct("params_from_u", dict(fb=ua, pk=ua, mx=ua), lambda c: {"p": vg(c["fb"], c["pk"], c["mx"])}, lambda c: {"p": params_ref(st(c))},
                     rtol=1e-13, atol=1e-13, inv=pinv, single=lambda g: {"p": np.array([float(x) for x in gp(D.BurstUParams(g.fb, g.pk, g.mx))])}, dev=1)
        ui = np.array([0.0, 1.0, -1.0, 10.0, -10.0, 40.0, -40.0, 80.0, -80.0])
        # the max-age parameter is degenerate when the peak sits at 10^8 yr: width 8-pk of its interval
        ctx.vproduct("u_round_trip", dict(fb=ui, pk=ui[:7], mx=ui[:7]), lambda c: {"u": vu(vg(c["fb"], c["pk"], c["mx"]))}, lambda c: {"u": st(c)}, rtol=1e-6, atol=1e-5)
        fr = np.array([0.5, 0.1, 0.9, 0.01, 0.99, 1e-4, 1 - 1e-4])

        def box(c):
            fb = -8 + 7 * c["fb"]
            pk = 5 + 3 * c["pk"]
            mx = pk + 1 + (8 - pk) * c["mx"]
            return np.stack([fb, pk, mx], -1)
        ctx.vproduct("p_round_trip", dict(fb=fr, pk=fr, mx=fr), lambda c: (lambda u: {"p": vg(u[:, 0], u[:, 1], u[:, 2]), "u": u})(np.asarray(vu(box(c)))),
                     lambda c: {"p": box(c)}, rtol=1e-9, atol=1e-9, inv=lambda c, o: {"finite": np.isfinite(o["u"])})
    # combined weights, batched over the parameter box for every (age grid, smooth) pair
    grids = {"real": np.linspace(-3.5, 1.15, 94), "coarse": np.linspace(-4.0, 1.1, 6), "young": np.linspace(-4.5, -2.0, 20), "fine": np.linspace(-3.5, 1.2, 301),
             "uneven": np.array([-3.9, -3.0, -2.9, -2.2, -1.0, 0.0, 1.0]), "single_in": np.array([-2.5, 0.8, 1.0])}

    def smooths(n):
        i = np.arange(n)
        s = {"flat": np.ones(n), "old": 1.0 + i**2, "first": (i == 0) * 1.0, "last": (i == n - 1) * 1.0, "saw": 1.0 + (i % 3)}
        s = {k: v / v.sum() for k, v in s.items()}
        # the smooth part is not always a unit distribution (a population that is still forming, a mass-weighted histogram)
        s.update({"half": 0.5 * s["old"], "triple": 3.0 * s["saw"], "zero": np.zeros(n), "cumulated": np.cumsum(s["flat"])})
        return s

    def support(lgage, pk, mx):
        x = np.asarray(lgage) + 9.0
        return ((x > (2 * pk - mx)[:, None] + 1e-9) & (x < mx[:, None] - 1e-9)).any(1)
    pks = np.linspace(5.0, 8.0, 19 if not ctx.thorough else 61)
    fms = np.linspace(0.0, 1.0, 13 if not ctx.thorough else 41)
    fbs = np.array([-3.0, -8.0, -1.0, -2.0])
    vc = jax.jit(jax.vmap(lambda p, s, g: D.calc_bursty_age_weights(D.BurstParams(*p), s, g), in_axes=(0, None, None)))
    for gname, g in grids.items():
        sm = smooths(len(g))
        for sname, s in sm.items():
            if sname not in ("flat", "half") and gname not in ("coarse", "uneven"):
                continue

            def P(c):
                mx = c["pk"] + 1 + (8 - c["pk"]) * c["fm"]
                return np.stack([c["fb"], c["pk"], mx], -1)

            def inv(c, o, g=g, s=s):
                w = o["w"]
                p = P(c)
                x = g + 9
                outside = (x[None] < (2 * p[:, 1] - p[:, 2])[:, None] - 1e-9) | (x[None] > p[:, 2][:, None] + 1e-9)
                fb = 10.0 ** p[:, 0]
                return {"non-negative": w >= 0, "sums to fb + (1 - fb) * the smooth sum": np.abs(w.sum(1) - fb - (1 - fb) * s.sum()) < 1e-12 * max(1, s.sum()),
                        "only the smooth part outside the burst's support": np.where(outside, np.abs(w - (1 - fb)[:, None] * s[None]) <= 1e-15 + 1e-13 * s[None], True)}
            ctx.vproduct("weights_%s_%s" % (gname, sname), dict(fb=fbs, pk=pks, fm=fms), lambda c, s=s, g=g: {"w": vc(P(c), s, g)},
                         lambda c, s=s, g=g: {"w": comb_ref(P(c)[:, 0], P(c)[:, 1], P(c)[:, 2], s, g)}, rtol=1e-10, atol=1e-14, inv=inv,
                         dom=lambda c, g=g: support(g, P(c)[:, 1], P(c)[:, 2]))

    # all entry points agree: every parameter kind x form of container, un-batched
    def entry(c):
        g = grids[c.grid]
        s = smooths(len(g))[c.smooth]
        u = np.array(c.u)
        p = params_ref(u)
        if not support(g, p[None, 1], p[None, 2])[0]:
            raise Skip
        want = comb_ref(p[0], p[1], p[2], s, g)
        out = []
        mk = {"namedtuple": (D.BurstParams, D.BurstUParams), "tuple": (lambda *a: tuple(a),) * 2, "list": (lambda *a: list(a),) * 2,
              "array": (lambda *a: np.array(a),) * 2}[c.form]
        w = np.asarray(D.calc_bursty_age_weights(mk[0](*p), s, g))
        wu = np.asarray(D.calc_bursty_age_weights_from_u_params(mk[1](*u), s, g))
        out.append(bad_close(w, want, 1e-11, 1e-15))
        out.append(bad_close(wu, want, 1e-9, 1e-14))
        if c.form in ("namedtuple", "tuple"):
            for f, a in ((cb, p), (cbu, u)):
                if f is not None:
                    out.append(bad_close(f(g + 9.0, s, tuple(a)), want, 1e-9, 1e-14))
            if pb is not None:
                out.append(bad_close(pb(g + 9.0, p[1], p[2]), burst_ref(g + 9.0, p[1], p[2]), 1e-9, 1e-14))
            if pbu is not None:
                out.append(bad_close(pbu(g + 9.0, u[1], u[2]), burst_ref(g + 9.0, p[1], p[2]), 1e-8, 1e-13))
        ctx.outcome(w)
        return out
    us = [list(x) for x in itertools.product([0.0, 30.0, -30.0], [0.0, 25.0, -25.0], [0.0, 40.0, -40.0])]
    ctx.product("entry_points", dict(u=[("u=%r" % x, x) for x in us], grid=["real", "coarse", "uneven"], smooth=["flat", "half", "triple"], form=["namedtuple", "tuple", "list", "array"]), entry)

    # bursts outside the default box: fractions up to one (nothing but burst), peaks and widths of any size
    wb = dict(lgfb=np.array([-2.0, -1.0, -0.5, float(np.log10(0.6)), -0.1, 0.0, -12.0, -30.0]), pk=np.array([6.5, 4.5, 5.0, 8.0, 8.5, 9.3]),
              width=np.array([1.0, 0.4, 2.5, 4.0, 0.15]))
    for gname in ("real", "coarse", "uneven", "fine"):
        g = grids[gname]
        for sname in ("old", "half", "zero", "triple"):
            s = smooths(len(g))[sname]
            P2 = lambda c: np.stack([c["lgfb"], c["pk"], c["pk"] + c["width"]], -1)
            vcb = None if cb is None else jax.jit(jax.vmap(lambda p, s, x: cb(x + 9.0, s, (p[0], p[1], p[2])), in_axes=(0, None, None)))
            ks = ["w"] + (["w2"] if vcb is not None else [])

            def got(c, s=s, g=g, P2=P2, vcb=vcb):
                o = {"w": vc(P2(c), s, g)}
                if vcb is not None:
                    o["w2"] = vcb(P2(c), s, g)
                return o

            def ref(c, s=s, g=g, P2=P2, ks=ks):
                p = P2(c)
                w = comb_ref(p[:, 0], p[:, 1], p[:, 2], s, g)
                return {k: w for k in ks}
            ctx.vproduct("wide_%s_%s" % (gname, sname), wb, got, ref, rtol=1e-9, atol=1e-14, dom=lambda c, g=g, P2=P2: support(g, P2(c)[:, 1], P2(c)[:, 2]))

    # SSP age grids of every length up to a bound, and long ones
    def lengths(c):
        g = np.linspace(-3.5, 1.15, c.n)
        s = smooths(c.n)[c.smooth]
        p = (-1.3, c.pk, c.pk + c.width)
        if not support(g, np.array([p[1]]), np.array([p[2]]))[0]:
            raise Skip
        w = np.asarray(D.calc_bursty_age_weights(D.BurstParams(*p), s, g))
        ctx.outcome(w)
        return bad_close(w, comb_ref(*p, s, g), 1e-9, 1e-14)
    ctx.product("grid_lengths", dict(n=(list(range(2, 41)) + [107, 188, 300, 1000]) if ctx.thorough else list(range(2, 14)) + [107, 300, 1000], pk=[6.0, 8.0], width=[1.0, 2.0], smooth=["old", "half"]), lengths)

    # support-boundary lattice: grid nodes exactly on, just inside and just outside both support ends
    def bnd(c):
        pk, mx = c.pk, c.pk + 1 + (8 - c.pk) * c.fm
        lo = 2 * pk - mx
        x = np.array([lo + c.d0, pk, mx + c.d1]) - 9.0
        s = np.array([0.2, 0.3, 0.5])
        w = np.asarray(D.calc_bursty_age_weights(D.BurstParams(-2.0, pk, mx), s, x))
        ctx.outcome(w)
        return [bad_close(w, comb_ref(-2.0, pk, mx, s, x), 1e-9, 1e-12), None if abs(w.sum() - 1) < 1e-12 and w.min() >= 0 else "sum/sign %r" % w]
    dd = [0.0, -0.3, -1e-6, 1e-6, 0.3]
    ctx.product("support_edges", dict(pk=[float(x) for x in pks], fm=[float(x) for x in fms], d0=dd, d1=dd), bnd)
