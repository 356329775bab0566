import itertools
import numpy as np
import jax
import jax.numpy as jnp
from mc.engine import Skip
from mc import menu


def ro(x):
    x = x.copy()
    x.setflags(write=False)
    return x


def strided(x):
    b = np.full(tuple(2 * n for n in x.shape), -99.0)
    v = b[tuple(slice(None, None, 2) for _ in x.shape)]
    v[...] = x
    return v


def revstride(x):
    return x[tuple(slice(None, None, -1) for _ in x.shape)].copy()[tuple(slice(None, None, -1) for _ in x.shape)]


class Sub(np.ndarray):
    pass


EXACT_A = {"jax f64": lambda x: jnp.asarray(x), "read-only": ro, "strided": strided, "reversed stride": revstride, "F-order": lambda x: np.asfortranarray(x),
           "big-endian": None, "subclass": lambda x: x.copy().view(Sub), "longdouble": None}
EXACT_S = {"np.float64": np.float64, "0-d array": lambda v: np.array(v), "0-d jax": lambda v: jnp.asarray(v)}
INT_A = {"int64": lambda x: x.astype(np.int64), "int32": lambda x: x.astype(np.int32), "jax int32": lambda x: jnp.asarray(x.astype(np.int32)), "jax int64": lambda x: jnp.asarray(x.astype(np.int64)),
         "uint16": None}
INT_S = {"python int": lambda v: int(v), "np.int64": lambda v: np.int64(v), "np.int32": lambda v: np.int32(v), "0-d int": lambda v: np.array(int(v)), "0-d jax int": lambda v: jnp.asarray(int(v))}
F32_A = {"float32": lambda x: x.astype(np.float32), "jax f32": lambda x: jnp.asarray(x.astype(np.float32))}
F32_S = {"np.float32": np.float32, "0-d f32": lambda v: np.array(v, dtype=np.float32)}
for D in (EXACT_A, INT_A):
    for k in [k for k, v in D.items() if v is None]:
        del D[k]


def cmp(a, b, rt, at_scale):
    p = []
    if len(a) != len(b):
        return "different number of outputs"
    for k, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape:
            return "output %d has shape %s, expected %s" % (k, x.shape, y.shape)
        sc = np.abs(y[np.isfinite(y)]).max() if np.isfinite(y).any() else 1.0
        x, y = x.astype(float), y.astype(float)
        with np.errstate(invalid="ignore"):
            ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= rt * np.abs(y) + at_scale * sc)
        if not ok.all():
            j = tuple(np.argwhere(~ok)[0])
            p.append("output %d%s = %r, plain call gives %r" % (k, list(map(int, j)), float(x[j]), float(y[j])))
    return "; ".join(p) or None


def call(e, fn, args):
    o = fn(*args)
    return menu.flat(e.pick(o) if e.pick else o)


MEMO = {}


def base(e, which):
    if (e.name, which) not in MEMO:
        fn = e.fn()
        if fn is None:
            if e.private:
                raise Skip
            raise AttributeError("%s.%s does not exist" % (e.mod, e.attr))
        a = e.i if which == "i" else e.f
        out = call(e, fn, a.values())
        if which == "f":
            assert all(np.all(np.isfinite(x)) for x in out), "non-finite result of the plain call"
        MEMO[e.name, which] = (fn, a, out)
    return MEMO[e.name, which]


def go(e, which, reps, tol):
    """call with the arguments in `reps` (name -> conversion) re-represented"""
    def thunk():
        fn, a, ref = base(e, which)
        args = [reps[n](v) if n in reps else v for n, v in a.items()]
        out = call(e, fn, args)
        return cmp(out, ref, tol, tol), out
    return thunk


def tl(e, rep, tol):
    """32-bit inputs (jax computes logs of int32 in single precision too): single-precision rounding,
    amplified by the straight-line continuum fit at wavelengths of several thousand AA in the EW code"""
    return (2e-2 if e.name in ("ew", "line_decomp") else 3e-4) if "32" in rep else tol


PAIRS = {"age_weights", "rest_sed_mdf", "rest_sed_table", "met_weights_table", "obs_mag", "rest_mag", "burst", "plaw_pdf", "noll", "cum_mstar", "bb_wave", "eff_wave", "virial_dynamical_time", "mzr"}
BOUNDS = {"layout_single": "every function x argument x float64 representation, one at a time",
          "integer_single": "every function x argument x integer representation, one at a time",
          "float32_single": "every function x argument x single-precision representation, one at a time",
          "all_arguments": "every function, all arguments re-represented together",
          "pairs": "all pairs of arguments x representations"}


def cases(tier):
    T = tier == "thorough"
    E = menu.build()
    out = []
    quick_int = ("int64", "python int")
    for fam, sets, which, tol in (("layout", (EXACT_A, EXACT_S), "f", 1e-12), ("integer", (INT_A, INT_S), "i", 1e-10), ("float32", (F32_A, F32_S), "i", 3e-4)):
        for e in E:
            a = e.i if which == "i" else e.f
            if a is None:
                continue
            for n, v in a.items():
                for vn, f in (sets[0] if np.ndim(v) else sets[1]).items():
                    if fam == "integer" and not T and vn not in quick_int:
                        continue
                    out.append((fam + "_single", "%s(%s=%s)" % (e.name, n, vn), e.name, go(e, which, {n: f}, tl(e, vn, tol))))
    for e in E:
        if e.i is None:
            continue
        for (an, af), (sn, sf) in itertools.product({**INT_A, **EXACT_A, **F32_A}.items(), {**INT_S, **EXACT_S, **F32_S, "python float": float}.items()):
            if not T and (an, sn) not in (("int64", "python int"), ("int32", "np.int32"), ("jax int32", "0-d jax int"), ("float32", "np.float32"), ("strided", "0-d array"),
                                          ("jax f64", "0-d jax"), ("reversed stride", "np.float64"), ("read-only", "python float")):
                continue
            t = tl(e, an + sn, 1e-10)
            out.append(("all_arguments", "%s all arrays %s, scalars %s" % (e.name, an, sn), e.name, go(e, "i", {n: (af if np.ndim(v) else sf) for n, v in e.i.items()}, t)))
    A2 = {"int64": INT_A["int64"], "float32": F32_A["float32"], "jax f64": EXACT_A["jax f64"]}
    S2 = {"python int": INT_S["python int"], "np.float32": F32_S["np.float32"], "0-d array": EXACT_S["0-d array"]}
    if not T:
        A2.pop("jax f64")
        A2.pop("float32")
        S2 = {"python int": S2["python int"]}
    for e in E:
        if e.i is None or (not T and e.name not in PAIRS):
            continue
        for (n1, v1), (n2, v2) in itertools.combinations(e.i.items(), 2):
            for (a1, f1), (a2, f2) in itertools.product((A2 if np.ndim(v1) else S2).items(), (A2 if np.ndim(v2) else S2).items()):
                t = tl(e, a1 + a2, 1e-10)
                out.append(("pairs", "%s %s=%s %s=%s" % (e.name, n1, a1, n2, a2), e.name, go(e, "i", {n1: f1, n2: f2}, t)))
    return out


def run(ctx):
    ctx.farm(cases(ctx.tier), BOUNDS)
