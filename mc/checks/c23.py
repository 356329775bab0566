import itertools
import math
import numpy as np
import jax
import jax.numpy as jnp
from mc import alph
from mc.engine import bad_close, opt, Skip
import mc.refs as R


def run(ctx):
    from dsps import utils as U
    T = ctx.thorough
    # ---- triweight kernels: lattice of z in units of the width, many (m, h) decades
    z = np.unique(np.concatenate([np.linspace(-3.5, 3.5, 1401 if not T else 14001), [-3, 3, -3 - 1e-9, 3 + 1e-9, -3 + 1e-9, 3 - 1e-9, -50, 50, -1e6, 1e6, 0.0]]))
    z = z[np.argsort(np.abs(z), kind="stable")]
    m, h = np.array([0.0, -2.3, 1e3, 9.5]), np.array([1.0, 0.05, 1e-6, 300.0])
    cdf = opt("dsps.utils", "_tw_cuml_kern")
    vp = jax.jit(jax.vmap(U.triweight_gaussian))
    vdp = None if cdf is None else jax.jit(jax.vmap(jax.grad(cdf)))
    X = lambda c: c["m"] + c["z"] * c["h"]

    def zz(c):     # the z actually represented
        return (X(c) - c["m"]) / c["h"]
    ctx.vproduct("triweight_pdf", dict(m=m, h=h, z=z), lambda c: {"p": vp(X(c), c["m"], c["h"])}, lambda c: {"p": R.tw_pdf(X(c), c["m"], c["h"])}, rtol=1e-9,
                 tol={"p": lambda c, w: (1e-9, 1e-9 / c["h"])}, inv=lambda c, o: {"non-negative": o["p"] >= 0, "zero outside": (np.abs(zz(c)) <= 3) | (o["p"] == 0)},
                 single=lambda g: {"p": U.triweight_gaussian(g.m + g.z * g.h, g.m, g.h)}, dev=1, atol=1e-9)
    if cdf is not None:
        vc = jax.jit(jax.vmap(cdf))
        ctx.vproduct("triweight_cdf", dict(m=m, h=h, z=z), lambda c: {"p": vc(X(c), c["m"], c["h"]), "d": vdp(X(c), c["m"], c["h"])},
                     lambda c: {"p": R.tw_cdf(X(c), c["m"], c["h"]), "d": R.tw_pdf(X(c), c["m"], c["h"])}, rtol=1e-9,
                     tol={"p": (1e-9, 1e-12), "d": lambda c, w: (1e-9, 1e-9 / c["h"])},
                     inv=lambda c, o: {"zero below": (zz(c) >= -3) | (o["p"] == 0), "one above": (zz(c) <= 3) | (o["p"] == 1),
                                       "in [0,1]": (o["p"] >= -1e-15) & (o["p"] <= 1 + 1e-15)})

        def mono(c):
            x = c.m + c.h * np.linspace(-4, 4, 4001)
            v = np.asarray(cdf(x, c.m, c.h))
            p = np.asarray(U.triweight_gaussian(x, c.m, c.h))
            ctx.outcome(v[::100])
            return [None if np.diff(v).min() >= -1e-14 else "cdf decreases", bad_close(R.trapz_v(x, p), 1.0, 1e-6),
                    bad_close(R.cumtrapz(x, p)[::40], v[::40], 0, 1e-5)]
        ctx.product("triweight_monotone_normalised", dict(m=[0.0, -2.3, 9.5], h=[1.0, 0.05, 300.0, 1e-3]), mono)
    for nm in ("_tw_sigmoid", "_tw_sig_slope"):
        f = opt("dsps.utils", nm)
        if f is None:
            ctx.skip(nm, "renamed")
            continue
        v = jax.jit(jax.vmap(f))
        if nm == "_tw_sigmoid":
            ctx.vproduct(nm, dict(z=z[::4], h=h[:2], x0=m[:2], lo=np.array([0.0, -1.0, 2.0]), hi=np.array([1.0, -3.0, 2.0])),
                         lambda c: {"y": v(c["x0"] + c["z"] * c["h"], c["x0"], c["h"], c["lo"], c["hi"])},
                         lambda c: {"y": c["lo"] + (c["hi"] - c["lo"]) * R.tw_cdf(c["x0"] + c["z"] * c["h"], c["x0"], c["h"])}, rtol=1e-10, atol=1e-10)
        else:
            ctx.vproduct(nm, dict(z=z[::4], h=h[:2], x0=m[:2], xtp=np.array([0.3, -5.0]), ytp=np.array([0.0, 2.0]), lo=np.array([0.0, -1.0]), hi=np.array([1.0, -3.0])),
                         lambda c: {"y": v(c["x0"] + c["z"] * c["h"], c["xtp"], c["ytp"], c["x0"], c["h"], c["lo"], c["hi"])},
                         lambda c: {"y": c["ytp"] + (c["lo"] + (c["hi"] - c["lo"]) * R.tw_cdf(c["x0"] + c["z"] * c["h"], c["x0"], c["h"])) * (c["x0"] + c["z"] * c["h"] - c["xtp"])},
                         rtol=1e-9, atol=1e-9)
    # ---- triweight histograms: every increasing 4-edge subset of a lattice, every x and width
    lat = np.array([-4.0, -3.0, -1.5, -0.2, 0.0, 0.7, 2.0, 3.0, 5.0])
    edges = np.array(list(itertools.combinations(lat, 4)))
    vh = jax.jit(jax.vmap(lambda x, s, e: U.triweighted_histogram(jnp.array([x, x + 0.3]), s, e)))

    def href(c):
        e, x, s = c["edges"], c["x"], c["sig"]
        xs = np.stack([x, x + 0.3], -1)
        a = R.tw_cdf(xs[:, None, :], e[:, :-1, None], s[:, None, None]) - R.tw_cdf(xs[:, None, :], e[:, 1:, None], s[:, None, None])
        return {"w": a}
    ctx.vproduct("histogram", dict(edges=edges, x=np.array([0.0, -3.0, -1.0, 0.35, 2.9, 7.0, -9.0, 20.0]), sig=np.array([0.5, 0.05, 1.0, 10.0])),
                 lambda c: {"w": vh(c["x"], c["sig"], c["edges"])}, href, rtol=1e-10, atol=1e-13,
                 inv=lambda c, o: {"non-negative": o["w"] >= -1e-14,
                                   "telescopes": np.abs(o["w"].sum(1)[:, 0] - (R.tw_cdf(c["x"], c["edges"][:, 0], c["sig"]) - R.tw_cdf(c["x"], c["edges"][:, -1], c["sig"]))) < 1e-12})
    # any number of bins (one included), any number of points
    def bins(c):
        e = np.array(c.e)
        x = np.array([0.1, -3.7, 4.9, -30.0, 30.0, 1.2, 1.3])[:c.n]
        w = np.asarray(U.triweighted_histogram(x if c.n else 0.1, c.sig, e))
        x = np.atleast_1d(x) if c.n else np.float64(0.1)
        sh = (-1,) + (1,) * np.ndim(x)
        want = R.tw_cdf(x[None], e[:-1].reshape(sh), c.sig) - R.tw_cdf(x[None], e[1:].reshape(sh), c.sig)
        ctx.outcome(w)
        return [None if w.shape == want.shape else "shape %s" % (w.shape,), bad_close(w, want, 1e-10, 1e-13)]
    es = [x for n in (2, 3) for x in itertools.combinations(lat[::2] if n > 2 else lat, n)] + [tuple(np.linspace(-4, 5, n)) for n in (6, 13, 24, 95, 300)]
    ctx.product("histogram_sizes", dict(e=[("%d edges %.2g..%.2g" % (len(x), x[0], x[-1]), x) for x in es], n=[1, 0, 2, 3, 7], sig=[0.5, 0.05, 10.0]), bins)
    fe = opt("dsps.utils", "_fill_empty_weights_singlepoint")
    if fe is not None:
        def fill(c):
            e = np.array(c.e)
            n = len(e) - 1
            w = np.zeros(n) if c.w == "zero" else (1.0 + np.arange(n)) / (n * (n + 1) / 2) if c.w == "full" else np.eye(n)[c.w % n]
            for x in np.concatenate([e, np.nextafter(e, -99), np.nextafter(e, 99), 0.5 * (e[1:] + e[:-1]), [e[0] - 5, e[-1] + 5]]):
                if 0 < abs(x) < 1e-300:
                    continue        # denormal: flushed to zero by the hardware mode XLA runs in
                want = w.copy()
                if not w.any() and x < e[0]:
                    want[0] = 1
                if not w.any() and x > e[-1]:
                    want[-1] = 1
                b = bad_close(fe(x, e, w), want, 1e-14, 1e-15)
                if b:
                    return "x=%r: %s" % (x, b)
        ctx.product("fill_empty", dict(e=[("%d edges %.2g..%.2g" % (len(x), x[0], x[-1]), x) for x in es[::7]], w=["zero", "full", 0, -1]), fill)
    f = opt("dsps.utils", "_get_triweights_singlepoint")
    if f is not None:
        vf = jax.jit(jax.vmap(f))

        def tref(c):
            return {"w": np.array([R.met_weights_edges(x, s, e)[0] for x, s, e in zip(c["x"], c["sig"], c["edges"])])}
        ctx.vproduct("singlepoint_weights", dict(edges=edges, x=np.array([0.0, -3.5, -1.0, 0.35, 2.9, 7.0, -9.0, 20.0]), sig=np.array([0.5, 0.05, 1.0, 10.0])),
                     lambda c: {"w": vf(c["x"], c["sig"], c["edges"])}, tref, rtol=1e-7, atol=1e-7, inv=lambda c, o: {"sum": np.abs(o["w"].sum(1) - 1) < 1e-9, "sign": o["w"] >= -1e-12},
                     dom=lambda c: np.array([R.met_weights_edges(x, s, e)[1] < 1e-7 for x, s, e in zip(c["x"], c["sig"], c["edges"])]))
    # ---- sigmoids
    sg, isg, ss = opt("dsps.utils", "_sigmoid"), opt("dsps.utils", "_inverse_sigmoid"), opt("dsps.utils", "_sig_slope")
    xx = np.array([0.0, 0.3, -0.7, 2.0, -5.0, 11.0, 40.0, -100.0, 800.0, -800.0])
    if sg is not None:
        ax = dict(x=xx, x0=np.array([0.0, -2.0, 6.5]), k=np.array([1.0, 0.1, -0.5, 12.0]), lo=np.array([0.0, -8.0, 3.0]), hi=np.array([1.0, -1.0, 0.2]))
        vs = jax.jit(jax.vmap(sg))
        ctx.vproduct("sigmoid", ax, lambda c: {"y": vs(*[c[k] for k in ax])}, lambda c: {"y": R.sigmoid(*[c[k] for k in ax])}, rtol=1e-12, atol=1e-13,
                     inv=lambda c, o: {"within bounds": (o["y"] >= np.minimum(c["lo"], c["hi"]) - 1e-14) & (o["y"] <= np.maximum(c["lo"], c["hi"]) + 1e-14)})
        if isg is not None:
            vi = jax.jit(jax.vmap(isg))
            fr = np.array([0.5, 0.1, 0.9, 1e-3, 1 - 1e-3, 1e-7, 1 - 1e-7])
            b = dict(f=fr, x0=ax["x0"], k=ax["k"], lo=ax["lo"], hi=ax["hi"])
            Y = lambda c: c["lo"] + c["f"] * (c["hi"] - c["lo"])
            A = lambda c: [c[k] for k in ("x0", "k", "lo", "hi")]
            ctx.vproduct("inverse_sigmoid", b, lambda c: (lambda x: {"x": x, "y": vs(x, *A(c))})(vi(Y(c), *A(c))),
                         lambda c: {"x": c["x0"] + np.log(c["f"] / (1 - c["f"])) / c["k"], "y": Y(c)}, rtol=1e-7, atol=1e-9,
                         tol={"x": lambda c, w: (1e-6, 1e-6 / np.abs(c["k"]))})
            c3 = dict(z=np.array([0.0, 0.5, -0.5, 3.0, -3.0, 8.0, -8.0]), x0=ax["x0"], k=ax["k"], lo=ax["lo"], hi=ax["hi"])
            Xk = lambda c: c["x0"] + c["z"] / c["k"]
            ctx.vproduct("sigmoid_then_inverse", c3, lambda c: {"x": vi(vs(Xk(c), *A(c)), *A(c))}, lambda c: {"x": Xk(c)}, rtol=1e-7, tol={"x": lambda c, w: (1e-7, 1e-8 / np.abs(c["k"]))})
    if ss is not None:
        vss = jax.jit(jax.vmap(ss))
        ax = dict(x=xx, xtp=np.array([0.0, 10.5]), ytp=np.array([0.05, -3.0]), x0=np.array([0.0, 8.4]), k=np.array([1.0, 0.3, -2.0]), lo=np.array([0.4, -1.0]), hi=np.array([0.1, 2.0]))
        ctx.vproduct("sig_slope", ax, lambda c: {"y": vss(*[c[k] for k in ax])}, lambda c: {"y": R.sig_slope(*[c[k] for k in ax])}, rtol=1e-12, atol=1e-12)
    # ---- bin edges: every increasing 3- and 4-node subset of a lattice, float or integer
    be, dt = opt("dsps.utils", "_get_bin_edges"), opt("dsps.utils", "_jax_get_dt_array")
    nodes = [-4, -3, -1, 0, 2, 3, 7, 8]
    if be is not None and dt is not None:
        def edge(c):
            x = np.array(c.x, dtype=c.dtype)
            lo, hi = x[0] - 5.0, x[-1] + 7.0
            e = np.asarray(be(x, lo, hi))
            d = np.asarray(dt(x))
            ctx.outcome(e, d)
            p = [bad_close(d, R.dt_array(c.x), 1e-13, 1e-13), bad_close(e, R.bin_edges(np.array(c.x, float), lo, hi), 1e-13, 1e-13)]
            xf = np.array(c.x, float)
            dx = np.diff(xf)
            if np.all(dx[1:] <= 3 * dx[:-1]) and np.all(dx[:-1] <= 3 * dx[1:]):
                p.append(None if np.all(e[:-1] <= xf) and np.all(xf <= e[1:]) else "edges do not contain the points")
            return p
        xs = [x for n in (3, 4) for x in itertools.combinations(nodes, n)]
        xs += list(itertools.combinations(nodes, 5))[:: 1 if T else 8] + list(itertools.combinations(nodes, 6))[:: 1 if T else 8]
        ctx.product("bin_edges", dict(x=[(repr(x), x) for x in xs], dtype=["float64", "int64", "int32", "float32"]), edge)
        big = [np.cumsum(1.0 + (np.arange(n) * 7 % 5)) for n in (12, 22, 94, 107, 201, 1000)]
        ctx.product("bin_edges_large", dict(x=[("n=%d" % len(x), tuple(x)) for x in big], dtype=["float64", "int64"]), edge)
    # ---- outer-product weight matrices, index by index, all shapes
    for nm, nd, lead in (("_mult_2d_vmap", 2, False), ("_mult_3d_vmap", 3, False), ("_get_weight_matrices_2d", 2, True), ("_get_weight_matrices_3d", 3, True)):
        f = opt("dsps.utils", nm)
        if f is None:
            ctx.skip(nm, "renamed")
            continue

        def mat(c, f=f, nd=nd, lead=lead):
            sh = c.shape
            ws = []
            for k, n in enumerate(sh):
                w = 1.0 + np.arange(n * (c.lead or 1)).reshape((c.lead, n) if lead else (n,)) * (0.37 ** k) + 10 * k
                ws.append(w)
            got = np.asarray(f(*ws))
            sub = ",".join(("g" if lead else "") + "abc"[k] for k in range(nd)) + "->" + ("g" if lead else "") + "abc"[:nd]
            ctx.outcome(got)
            return bad_close(got, np.einsum(sub, *ws), 1e-14)
        dims = [1, 2, 3, 5] if not T else [1, 2, 3, 4, 5, 7, 11]
        ctx.product(nm, dict(shape=[(repr(s), s) for s in itertools.product(dims, repeat=nd)], lead=[1, 2, 4] if lead else [0]), mat)
    # ---- power laws
    AB = [(1.0, 10.0), (0.1, 3.0), (2.0, 2.5), (1e-3, 1e3), (1.0, 2.0), (2, 9), (1, 4)]
    G = [1.0, 0.5, 2.0, -0.5, -1.0, -2.35, 3.7, 1, 2, -1, -2, 0.01, -0.01, 1e-3, -1e-3, 1e-5, -1e-4, 6.0, -7.5]

    def pdf(c):
        a, b = c.ab
        g = c.g
        al, bl = math.log(a), math.log(b)
        x = np.exp(np.linspace(al, bl, 4001))
        p = np.asarray(U.powerlaw_pdf(x, a, b, g))
        lw = float(g)
        ref = lw * x ** (lw - 1) / (float(b) ** lw - float(a) ** lw)
        ctx.outcome(p[::200])
        return [bad_close(p, ref, 1e-8), None if np.all(p >= 0) else "negative density", bad_close(R.trapz_v(x, p), 1.0, 2e-4)]
    ctx.product("powerlaw_pdf", dict(ab=[(repr(v), v) for v in AB], g=G), pdf)

    def rvs(c):
        a, b = c.ab
        g = float(c.g)
        n = c.n
        key = jax.random.PRNGKey(c.seed)
        A = np.full(n, a)
        B = np.full(n, b)
        Gv = np.full(n, c.g) if c.form == "arrays" else c.g
        B_ = B if c.form == "arrays" else b
        y = np.asarray(U.powerlaw_rvs(key, A, B_, Gv))
        u = np.asarray(jax.random.uniform(key, (n,)))
        ag, bg = float(a) ** g, float(b) ** g
        ref = (ag + (bg - ag) * u) ** (1 / g)
        y2 = np.asarray(U.powerlaw_rvs(key, A, B_, Gv))
        y3 = np.asarray(U.powerlaw_rvs(jax.random.PRNGKey(c.seed + 1), A, B_, Gv))
        ctx.outcome(y)
        cdfv = (y**g - ag) / (bg - ag)
        return [bad_close(y, ref, 1e-7), None if np.all(y >= a * (1 - 1e-9)) and np.all(y <= b * (1 + 1e-9)) else "draw outside [a, b]",
                None if np.array_equal(y, y2) else "not reproducible", None if not np.array_equal(y, y3) else "key ignored",
                bad_close(cdfv, u, 1e-5, 1e-5), None if y.shape == (n,) else "shape"]
    ctx.product("powerlaw_rvs", dict(ab=[(repr(v), v) for v in AB], g=G, n=[7, 1], seed=[0, 3] if not T else list(range(12)), form=["arrays", "scalars"]), rvs)

    def mixed(c):
        a, b, g = np.array([1.0, 0.1, 2.0]), np.array([10.0, 3.0, 2.5]), np.array(c.g)
        key = jax.random.PRNGKey(5)
        u = np.asarray(jax.random.uniform(key, (3,)))
        y = np.asarray(U.powerlaw_rvs(key, a, b, g))
        x = np.array([1.5, 1.0, 2.2])
        gg = g.astype(float)
        ctx.outcome(y)
        return [bad_close(y, (a**gg + (b**gg - a**gg) * u) ** (1 / gg), 1e-7), bad_close(U.powerlaw_pdf(x, a, b, g), gg * x ** (gg - 1) / (b**gg - a**gg), 1e-9)]
    ctx.product("powerlaw_per_object", dict(g=[(repr(v), v) for v in itertools.product([0.5, -1.5, 2.0, -1.0], repeat=3)] + [("ints", (1, 2, -1)), ("ints2", (-2, 3, 1))]), mixed)
