import itertools
import numpy as np
import jax
import jax.numpy as jnp
from jax import lax
from mc.engine import Skip
from mc import menu
from mc.checks.c22 import call, cmp, base

W8 = np.array([1.0, 0.7, -0.4, 0.9, 0.3, -0.8, 0.5, 1.2])

# further points at which values and derivatives are checked: (label, overrides, arguments for which
# the point is a kink of the documented behaviour so that one-sided derivatives differ)
SFH = {"quiescent throughout": dict(sfr=np.zeros(4)), "quenched": dict(sfr=np.array([2.0, 5.0, 0.0, 0.0])), "late start": dict(sfr=np.array([0.0, 0.0, 3.0, 1.0])),
       "rejuvenated": dict(sfr=np.array([2.0, 0.0, 0.0, 4.0])), "observed past the table": dict(t_obs=13.5), "observed early": dict(t_obs=2.0), "one active point": dict(sfr=np.array([0.0, 7.0, 0.0, 0.0]))}
POINTS = {
    "age_weights": SFH, "ssp_weights_mdf": SFH, "ssp_weights_table": SFH, "rest_sed_mdf": SFH, "rest_sed_table": SFH,
    "cum_mstar": {k: v for k, v in SFH.items() if "t_obs" not in v},
    "met_weights": {"below grid": dict(lgmet=-5.0), "above grid": dict(lgmet=-0.5), "narrow": dict(scat=0.02), "far below": dict(lgmet=-9.0)},
    "met_weights_table": {"below grid": dict(lgmet=np.array([-5.0, -4.5, -4.0, -3.8])), "falling": dict(lgmet=np.array([-1.8, -2.2, -2.6, -3.1])), "flat": dict(lgmet=np.full(4, -2.3))},
    "bb_freq": {"deep tail": dict(nu=np.array([3e15, 3e16, 3e17]), t=1000.0), "Rayleigh-Jeans": dict(nu=np.array([1e3, 1e6, 1e9]))},
    "bb_wave": {"deep tail": dict(w=np.array([30.0, 100.0, 1000.0]), t=1000.0), "Rayleigh-Jeans": dict(w=np.array([1e8, 1e10]))},
    "mzr": {"after evolution ends": dict(t=13.0), "early": dict(t=0.3)}, "umzr": {"after evolution ends": dict(t=13.0), "early": dict(t=0.3)},
    "mzr_evol": {"after evolution ends": dict(t=13.0), "early": dict(t=0.3)}, "umzr_evol": {"after evolution ends": dict(t=13.0)},
    "burst": {"maximal": dict(fb=-0.3), "minimal": dict(fb=-9.0), "long": dict(pk=6.0, mx=8.9)},
    "burst_u": {"saturated low": dict(fb=-60.0, pk=-60.0, mx=-60.0), "saturated high": dict(fb=60.0, pk=60.0, mx=60.0)},
    "mzr_bounded": {"saturated": {n: 400.0 for n in ("ytp", "x0", "k", "lo", "hi", "c0", "c1", "e0", "e1")}, "saturated low": {n: -400.0 for n in ("ytp", "x0", "k", "lo", "hi", "c0", "c1", "e0", "e1")}},
    "noll": {"grey": dict(slope=0.0, ampl=0.0), "no dust": dict(av=0.0)}, "sbl18": {"no bump": dict(ampl=0.0), "no dust": dict(av=0.0)},
    "frac_trans": {"no dust": dict(av=0.0), "floor one": dict(floor=1.0)},
    "plaw_pdf": {"steep": dict(g=-3.2), "flat": dict(g=0.0)},
    "surviving": {"young": dict(x=np.array([5.0, 5.9])), "old": dict(x=np.array([10.2]))}, "remnant": {"young": dict(x=np.array([5.0, 5.9])), "old": dict(x=np.array([10.2]))},
    "obs_mag": {"nearby": dict(z=0.01), "redshift one": dict(z=1.0), "closed vacuum": dict(Om0=1.0), "phantom": dict(w0=-1.2, wa=0.0)},
    "tw_gauss": {"outside the kernel": dict(x=np.array([-5.0, 9.0]))}, "tw_hist": {"outside the bins": dict(x=np.array([-5.0, 9.0]))},
}
for n in ("comoving_distance_to_z", "luminosity_distance_to_z", "angular_diameter_distance_to_z", "distance_modulus_to_z", "lookback_to_z", "rho_crit", "differential_comoving_volume_at_z", "virial_dynamical_time", "age_at_z"):
    POINTS[n] = {"nearby": dict(z=0.01), "far": dict(z=20.0), "de Sitter-like": dict(Om0=0.05), "wa": dict(wa=-0.6)}


def points(e, pairs=False):
    yield "default", e.f
    sca = [(n, s) for n, v in e.f.items() if not np.ndim(v) for s in (0.97, 1.03)]
    for n, s in sca:
        yield "%s*%s" % (n, s), type(e.f)((k, v * s if k == n else v) for k, v in e.f.items())
    if pairs:
        for (n, s), (m, r) in itertools.combinations(sca, 2):
            if n != m:
                yield "%s*%s %s*%s" % (n, s, m, r), type(e.f)((k, v * s if k == n else v * r if k == m else v) for k, v in e.f.items())
    for lb, ov in POINTS.get(e.name, {}).items():
        if set(ov) <= set(e.f):
            yield lb, type(e.f)((k, ov.get(k, v)) for k, v in e.f.items())


def fn_of(e):
    fn = e.fn()
    if fn is None:
        if e.private:
            raise Skip
        raise AttributeError("%s.%s does not exist" % (e.mod, e.attr))
    return lambda *a: jax.tree_util.tree_leaves(e.pick(fn(*a)) if e.pick else fn(*a)), fn


def outs(x):
    return [np.asarray(v) for v in x]


def scaled(v, s):
    return v * s


BATCH = np.array([1.0, 1.003, 0.996])


# ---- transformation words: each letter maps (function, arguments) to (function', how to read its result)
def apply_word(f, args, w):
    """Execute word w (outermost letter last) on f; returns list of (arguments, outputs) pairs."""
    letters = list(w)
    batched = [l for l in letters if l[0] == "V"]
    a = list(args)
    g = f
    n = len(args)
    axes = []
    for l in letters:
        if l == "J":
            g = jax.jit(g)
        elif l == "P":      # under a forward-mode trace: primal output
            g = (lambda h: lambda *x: jax.jvp(h, tuple(jnp.asarray(v, dtype=float) for v in x), tuple(jnp.ones_like(jnp.asarray(v, dtype=float)) for v in x))[0])(g)
        elif l == "R":      # under a reverse-mode trace
            g = (lambda h: lambda *x: jax.vjp(h, *[jnp.asarray(v, dtype=float) for v in x])[0])(g)
        elif l == "S":      # inside a loop body
            g = (lambda h: lambda *x: jax.tree_util.tree_map(lambda y: y[1], lax.scan(lambda c, k: (c, h(*[v + 0 * k for v in x])), 0.0, jnp.zeros(2))[1]))(g)
        elif l == "K":      # rematerialised
            g = jax.checkpoint(g)
        elif l == "C":      # in a branch
            g = (lambda h: lambda *x: lax.cond(jnp.sum(jnp.asarray(x[0])) > -1e300, lambda y: h(*y), lambda y: jax.tree_util.tree_map(lambda z: z * 0, h(*y)), tuple(jnp.asarray(v, dtype=float) for v in x)))(g)
        elif l[0] == "V":
            which = range(n) if l[1:] == "*" else [int(l[1:])]
            ax = tuple(0 if k in which else None for k in range(n))
            g = jax.vmap(g, in_axes=ax)
            axes.append(list(which))
    # build batched arguments (outermost vmap is the last letter)
    stack = [np.asarray(v, dtype=float) for v in a]
    for ax in axes:
        stack = [np.stack([scaled(v, s) for s in BATCH]) if k in ax else v for k, v in enumerate(stack)]
    res = outs(g(*stack))
    pairs = []
    nb = len(axes)
    for idx in itertools.product(*[range(len(BATCH))] * nb):
        x = list(a)
        for lev, ax in zip(idx[::-1], axes):     # axis 0 belongs to the outermost
            x = [scaled(v, BATCH[lev]) if k in ax else v for k, v in enumerate(x)]
        pairs.append((x, [r[idx] for r in res]))
    return pairs


def word(e, args, w):
    def thunk():
        f, _ = fn_of(e)
        p = []
        last = None
        for x, got in apply_word(f, args, w):
            ref = outs(f(*x))
            last = got
            d = cmp(got, ref, 1e-9, 1e-11)
            if d:
                p.append("at batch element %s: %s" % ([np.asarray(v).ravel()[:3].tolist() for v in x][:3], d))
        return "; ".join(p[:2]) or None, last
    return thunk


def scales(ref):
    return [np.array(1.0 / max(np.abs(r[np.isfinite(r)]).max() if np.isfinite(r).any() else 1.0, 1e-300)) for r in ref]


def weighted(f):
    def s(sc, *x):
        tot = 0.0
        for r, c in zip(f(*x), sc):
            r = jnp.ravel(jnp.asarray(r) * c)
            tot = tot + jnp.sum(r * np.resize(W8, r.shape[0]))
        return tot
    return s


CK = {}


def kernels(e, f, vals, D):
    """compiled once per function and shapes, shared by the points; derivatives in all arguments D at once"""
    key = (e.name,) + tuple(np.shape(v) for v in vals)
    if key not in CK:
        s = weighted(f)

        def at(xs, sc, vals):
            b = list(vals)
            for k, x in zip(D, xs):
                b[k] = x
            return s(sc, *b)
        CK.clear()
        CK[key] = (at, jax.jit(lambda x, sc, v: (jax.grad(at)(x, sc, v), jax.jacfwd(at)(x, sc, v))), jax.jit(jax.vmap(jax.grad(at), in_axes=(0, None, None))), jax.jit(jax.vmap(at, in_axes=(0, None, None))))
    return CK[key]


def deriv(e, label, args):
    names = list(args)
    vals = [np.asarray(v, dtype=float) for v in args.values()]
    D = [k for k, n in enumerate(names) if n not in e.nodiff]

    def thunk():
        f, _ = fn_of(e)
        ref = outs(f(*vals))
        if not all(np.all(np.isfinite(r)) for r in ref):
            raise Skip
        at, both, vgrad, vat = kernels(e, f, vals, D)
        sc = scales(ref)
        xs = tuple(vals[k] for k in D)
        REV, FWD = ([np.asarray(v) for v in t] for t in both(xs, sc, vals))
        xb = tuple(np.stack([x, x * 1.001]) for x in xs)
        VG = [np.asarray(v) for v in vgrad(xb, sc, vals)]
        R2 = [np.asarray(v) for v in both(tuple(x[1] for x in xb), sc, vals)[0]]
        PG = [np.asarray(v) for v in jax.grad(at)(tuple(jnp.asarray(x) for x in xs), sc, vals)] if label == "default" else None
        p = []
        # perturbed points of every element of every argument, two step sizes, both sides
        rows = [xs]
        plan = []
        for j, x0 in enumerate(xs):
            for h0 in (1e-5, 1e-6):
                h = h0 * np.maximum(np.abs(x0), 1.0 if np.abs(x0).max() == 0 else 1e-3 * np.abs(x0).max())
                for i in range(x0.size):
                    u = np.zeros(x0.size)
                    u[i] = 1.0
                    u = u.reshape(x0.shape)
                    rows += [xs[:j] + (x0 + h * u,) + xs[j + 1:], xs[:j] + (x0 - h * u,) + xs[j + 1:]]
                    plan.append((j, i, h0, float(np.broadcast_to(h, x0.shape).ravel()[i])))
        B = 256
        rows += [xs] * (-len(rows) % B)
        y = np.concatenate([np.asarray(vat(tuple(np.stack([r[j] for r in rows[lo:lo + B]]) for j in range(len(xs))), sc, vals)) for lo in range(0, len(rows), B)])
        for j, x0 in enumerate(xs):
            nm = names[D[j]]
            rev, fwd = REV[j], FWD[j]
            if not np.all(np.isfinite(rev)):
                p.append("d/d%s: reverse-mode derivative is not finite: %s" % (nm, rev.ravel()[:6].tolist()))
            if not np.all(np.isfinite(fwd)):
                p.append("d/d%s: forward-mode derivative is not finite: %s" % (nm, fwd.ravel()[:6].tolist()))
            if p:
                continue
            G = np.abs(rev).max()
            tiny = 1e-14 + 1e-11 / max(np.abs(x0).max(), 1e-6)

            def near(a, b):
                return np.all((np.abs(a - b) <= 1e-8 * np.abs(b) + 1e-9 * G + tiny) | (np.isnan(a) & np.isnan(b)))
            if not near(fwd, rev):
                p.append("d/d%s: forward mode %s, reverse mode %s" % (nm, fwd.ravel()[:6].tolist(), rev.ravel()[:6].tolist()))
            if PG is not None and not near(PG[j], rev):
                p.append("d/d%s: jitted gradient %s, plain gradient %s" % (nm, rev.ravel()[:4].tolist(), PG[j].ravel()[:4].tolist()))
            lg = np.stack([rev, R2[j]])
            if not near(VG[j], lg):
                p.append("d/d%s: vmapped gradients %s, looped gradients %s" % (nm, VG[j].ravel()[:6].tolist(), lg.ravel()[:6].tolist()))
        if p:
            return "; ".join(p[:3]), REV
        est = {}
        for q, (j, i, h0, h) in enumerate(plan):
            yp, ym = y[1 + 2 * q], y[2 + 2 * q]
            est.setdefault((j, i), []).append(((yp - ym) / (2 * h), (yp - y[0]) / h, (y[0] - ym) / h, h))
        for (j, i), es in est.items():
            g = REV[j].ravel()[i]
            (c5, _, _, _), (c6, r, l, h) = es
            noise = 3e-15 * max(1.0, np.abs(y[0])) / h * 30
            ok = min(abs(c5 - g), abs(c6 - g)) <= 2e-4 * abs(g) + noise * 10 + 1e-7 * np.abs(REV[j]).max()
            # left and right differences disagree at the small step: a kink of the function, not judged
            kink = abs(r - l) > 1e-2 * abs(g) + 100 * noise
            if not ok and not kink:
                p.append("d/d%s [%d] = %r, finite differences %r (step 1e-5) %r (1e-6)" % (names[D[j]], i, float(g), float(c5), float(c6)))
        return "; ".join(p[:3]) or None, REV
    return thunk


BOUNDS = {"words1": "every function x single transformation: jit, vmap over each argument and over all, forward- and reverse-mode trace, scan body, branch, remat",
          "words2": "compositions of two transformations (quick: three of them; thorough: all pairs that include jit, vmap over everything or a reverse-mode trace)", "words3": "all compositions of three of jit, reverse-mode trace, vmap over all arguments, vmap over the first",
          "derivatives": "every function x point, with respect to every element of every differentiable argument: forward, reverse, jitted, vmapped and finite-difference derivatives"}


# functions that a larger one in the catalogue calls, or array twins of scalar versions: in the quick tier only J, V*, R
LIGHT = {"mzr_t0", "mzr_evol", "umzr_t0", "umzr_evol", "surviving", "remnant", "rest_flux", "leitherer", "calzetti", "ssp_weights_mdf", "ssp_weights_table"}


def cases(tier):
    T = tier == "thorough"
    cs = []
    for e in menu.build():
        n = len(e.f)
        args = list(e.f.values())
        light = not T and (e.name in LIGHT or e.name.endswith("_arr"))
        single = ["J", "P", "R", "S", "K", "C", "V*"] + ["V%d" % k for k in range(n)]
        for l in single if T else ["J", "V*", "R"] if light else [x for x in single if x not in "KC"]:
            cs.append(("words1", "%s %s" % (l, e.name), e.name, word(e, args, (l,))))
        if T:
            w2 = [w for w in itertools.product(single, repeat=2) if {"J", "R", "V*"} & set(w)]
        else:
            w2 = [("V*", "J"), ("V*", "R"), ("V%d" % (n - 1), "V0")]
        for w in [] if light else w2:
            cs.append(("words2", "%s %s" % (".".join(w), e.name), e.name, word(e, args, w)))
        if T:
            red = ["J", "R", "V*", "V0"]
            for w in itertools.product(red, repeat=3):
                if len(set(w)) > 1:
                    cs.append(("words3", "%s %s" % (".".join(w), e.name), e.name, word(e, args, w)))
        if not e.grad or light and e.name not in POINTS:
            continue
        pts = list(points(e, T))
        for lb, a in pts:
            if T and lb in POINTS.get(e.name, {}):
                for l in ("J", "V*", "R"):
                    cs.append(("words1", "%s %s at %s" % (l, e.name, lb), e.name, word(e, list(a.values()), (l,))))
        for lb, a in pts:
            cs.append(("derivatives", "%s at %s" % (e.name, lb), e.name, deriv(e, lb, a)))
    return cs


def run(ctx):
    ctx.farm(cases(ctx.tier), BOUNDS)
