import numpy as np
import jax
import jax.numpy as jnp
from mc import alph
from mc.engine import bad_close
import mc.refs as R


def run(ctx):
    import dsps.sed  # noqa  (double precision)
    from dsps.utils import cumulative_mstar_formed as cum, cumtrapz, trapz
    from dsps import cumulative_mstar_formed as cum_pub

    dts = np.array([1.0, 1e-6, 5.0])
    sf = np.array([1.0, 0.0, 1e-14, 1e4])
    letters = np.array([[d, s] for d in dts for s in sf])       # 12 letters: (gap to next node, SFR)
    t0s = np.array([0.01, 0.5, 3.0, 0.0011])
    depth = 5
    vc = {}

    # 1. explicit tree of SFH histories: one node appended per level; every history up to `depth`
    for d in range(1, depth + 1):
        vcum = jax.jit(jax.vmap(cum))
        vc[d] = vcum

        def build(c, d=d):
            w = np.stack([c["n%d" % i] for i in range(d)], axis=1)      # (B, d, 2)
            t = c["t0"][:, None] + np.concatenate([np.zeros((len(w), 1)), np.cumsum(w[:, :-1, 0], axis=1)], axis=1)
            return t, w[:, :, 1]

        def impl(c, d=d):
            t, s = build(c)
            out = {"m": vc[d](t, s)}
            if d > 1:
                out["prefix"] = vc[d - 1](t[:, :-1], s[:, :-1])
            return out

        def ref(c):
            t, s = build(c)
            tt = np.concatenate([np.full((len(t), 1), 0.001), t], 1)
            ss = np.concatenate([np.full((len(t), 1), 1e-14), s], 1)
            return {"m": np.cumsum((tt[:, 1:] - tt[:, :-1]) * (ss[:, 1:] + ss[:, :-1]) / 2, 1) * 1e9}

        def inv(c, o, d=d):
            m = o["m"]
            r = {"finite": np.isfinite(m), "positive": m >= 0}
            if d > 1:
                t, s = build(c)
                step = (t[:, 1:] - t[:, :-1]) * (s[:, 1:] + s[:, :-1]) / 2 * 1e9
                r["non-decreasing"] = np.diff(m, axis=1) >= 0
                r["step rule"] = np.abs(np.diff(m, axis=1) - step) <= 1e-9 * step + 1e-12 * m[:, 1:]
                r["prefix stability"] = np.abs(m[:, :-1] - o["prefix"]) <= 1e-13 * np.abs(m[:, :-1])
            return r
        axes = dict(t0=t0s)
        for i in range(d):
            axes["n%d" % i] = letters if d < 5 else letters[[0, 1, 2, 3, 4, 5, 8, 11]]
        ctx.vproduct("histories_depth%d" % d, axes, impl, ref, inv=inv, rtol=1e-11,
                     single=lambda g, d=d: (lambda ts: {"m": cum_pub(ts[0][0], ts[1][0])})(
                         build({k: np.asarray(v)[None] for k, v in g.items()})))

    # 2. generic integrals, signed integrands
    yl = np.array([1.0, 0.0, -2.0, 1e6, 1e-30])
    xl = np.array([1.0, 1e-3, 100.0])
    for n in (1, 2, 3, 4, 5):
        axes = dict(x0=np.array([0.0, -5.0, 3.0]), dx=np.array(np.meshgrid(*[xl] * max(n - 1, 1), indexing="ij")).reshape(max(n - 1, 1), -1).T)
        axes["y"] = np.array(np.meshgrid(*[yl] * n, indexing="ij")).reshape(n, -1).T
        if n == 5:
            axes["x0"] = axes["x0"][:1]
            axes["dx"] = axes["dx"][::3]
        vct, vt = jax.jit(jax.vmap(cumtrapz)), jax.jit(jax.vmap(trapz))

        def xs(c, n=n):
            return c["x0"][:, None] + np.concatenate([np.zeros((len(c["x0"]), 1)), np.cumsum(c["dx"], 1)], 1)[:, :n]

        def impl2(c):
            x = xs(c)
            o = {"cum": vct(x, c["y"]), "tot": vt(x, c["y"])}
            o["lin"] = vct(x, 3.0 * c["y"] + 1.0) - 3.0 * o["cum"] - vct(x, np.ones_like(c["y"]))
            return o

        def ref2(c, n=n):
            x, y = xs(c), c["y"]
            st = (x[:, 1:] - x[:, :-1]) * (y[:, 1:] + y[:, :-1]) / 2
            cu = np.concatenate([np.zeros((len(x), 1)), np.cumsum(st, 1)], 1)
            c["_scale"] = np.concatenate([np.zeros((len(x), 1)), np.cumsum(np.abs(st), 1)], 1) + 1e-300
            return {"cum": cu, "tot": cu[:, -1], "lin": np.zeros_like(cu)}
        ctx.vproduct("integrals_n%d" % n, axes, impl2, ref2, rtol=1e-12,
                     tol={"cum": lambda c, w: (0, 1e-12 * c["_scale"]), "tot": lambda c, w: (0, 1e-12 * c["_scale"][:, -1]),
                          "lin": lambda c, w: (0, 1e-11 * (c["_scale"] + (xs(c) - c["x0"][:, None])))},
                     single=lambda g: {"cum": cumtrapz(xs({k: np.asarray(v)[None] for k, v in g.items()})[0], g.y),
                                       "tot": trapz(xs({k: np.asarray(v)[None] for k, v in g.items()})[0], g.y)}, atol=1e-6)

    # 3. realistic and every table length: agreement, last-node equality, sub-interval additivity, later nodes irrelevant
    ns = list(range(1, 13)) + [50, 64, 65, 100, 101, 128, 129, 257, 1000, 1024, 1025, 3000, 10000] + (list(range(13, 50)) + [30000, 65537] if ctx.thorough else [])

    def one(c):
        t = alph.time_tables(max(c.n, 2))[c.table][:c.n]
        s = alph.sfh_family(t)[c.sfh]
        got = np.asarray(cum_pub(t, s))
        p = [bad_close(got, R.cum_mstar(t, s), 1e-10)]
        ct = np.asarray(cumtrapz(t, s))
        want = R.cumtrapz(t, s)
        p.append(bad_close(ct, want, 1e-10, 1e-12 * abs(want[-1]) + 1e-25))
        p.append(bad_close(trapz(t, s), want[-1], 1e-10, 1e-25))
        if c.n >= 4:
            k = c.n // 2
            a, b = float(trapz(t[:k + 1], s[:k + 1])), float(trapz(t[k:], s[k:]))
            p.append(bad_close(a + b, want[-1], 1e-10, 1e-25))
            s2 = s.copy()
            s2[k:] = 7.7 + s2[k:]
            p.append(bad_close(np.asarray(cum_pub(t, s2))[:k], got[:k], 1e-13))
        ctx.outcome(got)
        return p
    ctx.product("table_lengths", dict(n=ns, table=["lin", "log", "late"], sfh=list(alph.sfh_family(np.arange(1, 3)))), one,
                dom=lambda c: not (c.n > 12 and c.n == 257 and c.table != "log"))
