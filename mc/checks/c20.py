"""Every word is executed in its own process, forked before the package (and the XLA backend) is
loaded, and every result is compared with the result of the same call in a process of its own."""
import copy
import hashlib
import importlib
import itertools
import os
import pickle
import pkgutil
import select
import signal
import sys
import numpy as np
from mc import ops as O
from mc.farm import digest

RT = 1e-12
NOCLEAR = PREJAX = True


def package_state():
    """digest of the package's public constants and defaults, and of the process-wide settings it could disturb"""
    import jax
    d = {}

    def rep(v, nested=False):
        if isinstance(v, (bool, int, float, complex, str, bytes, type(None))):
            return repr(v)
        if isinstance(v, np.ndarray) or hasattr(v, "__array__") and hasattr(v, "dtype"):
            a = np.asarray(v)
            return "%s%s%s" % (a.dtype, a.shape, hashlib.md5(np.ascontiguousarray(a).tobytes()).hexdigest())
        if isinstance(v, dict):
            return "{%s}" % ",".join("%s:%s" % (rep(k, True), rep(x, True)) for k, x in v.items())
        if isinstance(v, (tuple, list)):
            return "(%s)" % ",".join(rep(x, True) for x in v)
        if isinstance(v, (set, frozenset)):
            return "s(%s)" % ",".join(sorted(rep(x, True) for x in v))
        return type(v).__name__ if nested else None
    for n in sorted(k for k in sys.modules if k == "dsps" or k.startswith("dsps.")):
        for k, v in list(vars(sys.modules[n]).items()):
            if k.startswith("_"):
                continue
            r = rep(v)
            if r is not None:
                d["%s.%s" % (n, k)] = r
            elif callable(v):
                f = getattr(v, "__wrapped__", v)
                if getattr(f, "__defaults__", None):
                    d["%s.%s defaults" % (n, k)] = rep(f.__defaults__)
    d["x64"] = repr(jax.config.jax_enable_x64)
    d["disable_jit"] = repr(jax.config.jax_disable_jit)
    d["debug_nans"] = repr(jax.config.jax_debug_nans)
    d["default_dtype_bits"] = repr(jax.numpy.zeros(1).dtype)
    d["seterr"] = repr(sorted(np.geterr().items()))
    d["cwd"] = os.getcwd()
    d["DSPS_DRN"] = repr(os.environ.get("DSPS_DRN"))
    d["printoptions"] = repr(sorted((k, v) for k, v in np.get_printoptions().items() if k != "formatter"))
    return d


def load_all():
    sys.path.insert(0, os.path.join(O.STUB, "fsps_ok"))
    import dsps
    for m in pkgutil.walk_packages(dsps.__path__, "dsps."):
        if ".tests" not in m.name and "diagnostics" not in m.name:
            importlib.import_module(m.name)


def forked(fn, timeout=600):
    """run fn in a child process that has not loaded the package; returns its pickled result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.dup2(2, 1)
            try:
                res = fn()
            except BaseException as e:
                import traceback
                res = ("crash", "%s: %s\n%s" % (type(e).__name__, str(e)[:800], "\n".join(traceback.format_exc().splitlines()[-6:])))
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    with os.fdopen(r, "rb") as f:
        while True:
            rl, _, _ = select.select([f], [], [], timeout)
            if not rl:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return ("crash", "history did not finish within %d s" % timeout)
            b = os.read(f.fileno(), 1 << 20)
            if not b:
                break
            buf += b
    _, st = os.waitpid(pid, 0)
    if not buf:
        return ("crash", "process died, status %d" % st)
    return pickle.loads(buf)


OPS = {}


def op(name):
    if not OPS:
        OPS.update((o.name, o) for o in O.build(("f", "g", "h", "i")))
    return OPS[name]


def same(got, want):
    if len(got) != len(want):
        return "%d outputs, fresh process gives %d" % (len(got), len(want))
    for k, (x, y) in enumerate(zip(got, want)):
        if x.dtype != y.dtype and not (x.dtype.kind == y.dtype.kind == "U"):
            return "output %d has dtype %s, fresh process gives %s" % (k, x.dtype, y.dtype)
        if x.shape != y.shape:
            return "output %d has shape %s, fresh process gives %s" % (k, x.shape, y.shape)
        if x.dtype.kind in "USO":
            if not np.array_equal(x, y):
                return "output %d = %r, fresh process gives %r" % (k, x.tolist(), y.tolist())
            continue
        with np.errstate(invalid="ignore"):
            ok = (x == y) | ((x != x) & (y != y)) | (np.abs(x - y) <= RT * np.abs(y))
        if not np.all(ok):
            j = tuple(int(i) for i in np.argwhere(~np.atleast_1d(ok))[0])
            return "output %d%s = %r, fresh process gives %r" % (k, list(j), np.atleast_1d(x)[j].item(), np.atleast_1d(y)[j].item())
    return None


class Mon:
    """executes operations and monitors inputs, earlier results and aliasing"""

    def __init__(self):
        self.kept = []

    def call(self, name, keep=True):
        o = op(name)
        fn, args = o.make()
        if fn is None:
            return None, None
        before = [np.array(a, copy=True) if isinstance(a, np.ndarray) else copy.deepcopy(a) if isinstance(a, (list, dict)) else a for a in args]
        res = fn(*args)
        res = o.entry.pick(res) if o.entry is not None and o.entry.pick else res
        live = O.arrays(res)
        vals = [np.array(v, copy=True) for v in O.canon(res)]
        for k, (a, b) in enumerate(zip(args, before)):
            if isinstance(a, np.ndarray) and not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
                return vals, "%s modified its input %d" % (name, k)
            if isinstance(a, (list, dict)) and a != b:
                return vals, "%s modified its input %d: %r became %r" % (name, k, b, a)
        snap = [np.array(v, copy=True) for v in live]
        for a in args:
            if isinstance(a, np.ndarray) and a.dtype.kind == "f" and not o.cluster.endswith("data_loaders"):
                a[...] = -77.0
        for k, (v, s) in enumerate(zip(live, snap)):
            if not np.array_equal(np.asarray(v), s, equal_nan=s.dtype.kind == "f"):
                return vals, "%s: result %d changes when the caller reuses its input array" % (name, k)
        if keep:
            self.kept.append((name, live, snap))
            del self.kept[:-60]
        return vals, None

    def final(self):
        for n, live, snap in self.kept:
            for k, (v, s) in enumerate(zip(live, snap)):
                if not np.array_equal(np.asarray(v), s, equal_nan=s.dtype.kind == "f"):
                    return "result %d returned earlier by %s was overwritten by a later call" % (k, n)
        return None


def statediff(a, b):
    ch = [k for k in a if k in b and a[k] != b[k]] + [k for k in a if k not in b]
    return "package state changed by the calls: " + ", ".join("%s %s -> %s" % (k, a[k][:80], b.get(k, "(gone)")[:80]) for k in ch[:4]) if ch else None


def bfile(name):
    d = os.path.join(os.environ["MC_SCRATCH"], "base20")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, hashlib.md5(name.encode()).hexdigest())


def make_base(names):
    """results of the calls in a process of their own (a quick run lets the two argument variants of one function share it)"""
    def child():
        load_all()
        s0 = package_state()
        m = Mon()
        out = {}
        prob = None
        for name in names:
            v, p = m.call(name)
            if v is None:
                return ("absent",)
            v2, p2 = m.call(name)
            out[name] = ("ok", v)
            prob = prob or p or p2 or (same(v2, v) and "second identical call of %s: %s" % (name, same(v2, v)))
        return ("ok", out, prob or m.final() or statediff(s0, package_state()))
    r = forked(child)
    for n in names:
        fn = bfile(n)
        with open(fn + ".%d" % os.getpid(), "wb") as f:
            pickle.dump(r[1][n] if r[0] == "ok" else r, f)
        os.replace(fn + ".%d" % os.getpid(), fn)
    return r


def base(name):
    fn = bfile(name)
    if os.path.exists(fn):
        with open(fn, "rb") as f:
            return pickle.load(f)
    make_base((name,))
    return base(name)


def fresh(names):
    def thunk():
        r = make_base(names)
        if r[0] == "crash":
            return r[1]
        if r[0] == "absent":
            from mc.engine import Skip
            if op(names[0]).private:
                raise Skip
            return "%s does not exist" % names[0]
        return r[2], [x for v in r[1].values() for x in v[1]]
    return thunk


def prefix(name, how):
    """other ways of entering the same function before the plain call"""
    import jax
    o = op(name)
    fn, args = o.make()
    if fn is None:
        return
    fa = [k for k, a in enumerate(args)]
    if how == "call":
        fn(*args)
    elif how == "jit":
        jax.jit(fn)(*args)
    elif how == "grad":
        def tot(x):
            b = list(args)
            b[j] = x
            return sum(jax.numpy.sum(v) for v in jax.tree_util.tree_leaves(fn(*b)))
        j = fa[-1]
        jax.grad(tot)(jax.numpy.asarray(args[j], dtype=float))
    elif how == "vmap":
        jax.vmap(lambda s: fn(*[a * s for a in args]))(jax.numpy.array([1.0, 1.05, 1.1]))
    elif how == "f32":
        fn(*[np.asarray(a, dtype=np.float32) for a in args])
    elif how == "bad":
        try:
            fn(*args[:-1])
        except Exception:
            pass
        try:
            fn(*[np.ones((2, 3, 5)) for a in args])
        except Exception:
            pass
    elif how == "clear":
        fn(*args)
        jax.clear_caches()


def word(names):
    """names: operation names, or (name, how) for a prefix entry"""
    def thunk():
        want = {}
        for n in names:
            if isinstance(n, str):
                b = base(n)
                if b[0] != "ok":
                    from mc.engine import Skip
                    raise Skip          # reported by the `fresh` scenario
                want[n] = b[1]

        def child():
            load_all()
            s0 = package_state()
            m = Mon()
            prob = None
            last = ()
            for k, n in enumerate(names):
                if not isinstance(n, str):
                    try:
                        prefix(*n)
                    except Exception as e:
                        if n[1] in ("jit", "grad", "vmap", "f32"):
                            pass            # judged by C21 / C22
                    continue
                v, p = m.call(n)
                p = p or same(v, want[n])
                last = v
                if p:
                    prob = "call %d (%s) after %s: %s" % (k, n, list(names[max(0, k - 6):k]), p)
                    break
            return ("ok", last, prob or m.final() or statediff(s0, package_state()))
        r = forked(child)
        if r[0] == "crash":
            return r[1]
        return r[2], r[1]
    return thunk


def perturbations(args):
    """argument sets that agree with the first in everything a lossy cache key could keep: each argument changed
    alone; everything by 2e-8 (same integer part, same rounding, same float32); interiors only (same ends, length, sum)"""
    arr = [j for j, a in enumerate(args) if isinstance(a, np.ndarray) and a.dtype.kind == "f"]

    def cp():
        return [a.copy() if isinstance(a, (np.ndarray, list, dict)) else a for a in args]
    out = [("as given", cp())]
    num = [isinstance(a, (int, float)) or isinstance(a, np.ndarray) and a.dtype.kind == "f" for a in args]
    for j in range(len(args)):
        if not num[j]:
            continue
        b = cp()
        b[j] = b[j] * 1.004
        out.append(("argument %d alone" % j, b))
    b = cp()
    for j in arr:
        f = b[j].reshape(-1)
        if f.size >= 4:
            d = 0.01 * np.abs(np.diff(np.unique(f))).min() if np.unique(f).size > 1 else 0.01 * abs(f[1])
            f[1] += d
            f[2] -= d
    out.append(("interiors alone", b))
    # last, so that the two directions start from sets that differ in everything
    out.append(("all by 2e-8", [a * (1 + 2e-8) if q else a for a, q in zip(cp(), num)]))
    return out


def walk(name, backwards):
    """values of one function over its perturbed argument sets: forwards writing each set into the same array objects and
    scribbling over every writable result, backwards with new objects throughout"""
    def child():
        load_all()
        fn, args = op(name).make()
        if fn is None:
            return ("absent",)
        sets = perturbations(args)
        pick = op(name).entry.pick if op(name).entry is not None else None
        obj = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
        vals = {}
        for label, b in (sets[::-1] if backwards else sets):
            if not backwards:
                for j, a in enumerate(b):
                    if isinstance(a, np.ndarray):
                        obj[j][...] = a
                    else:
                        obj[j] = a
            try:
                res = fn(*(b if backwards else obj))
            except Exception as e:
                vals[label] = [np.array("raises " + type(e).__name__)]
                continue
            res = pick(res) if pick else res
            vals[label] = [np.array(v, copy=True) for v in O.canon(res)]
            if not backwards:
                for v in O.arrays(res):
                    if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind == "f":
                        v[...] = -55.0
        return ("ok", vals)
    return forked(child)


def near(name):
    def thunk():
        a, b = walk(name, False), walk(name, True)
        return near_cmp(name, a, b)
    return thunk


def near_cmp(name, a, b):
    for r in (a, b):
        if r[0] == "crash":
            return r[1]
        if r[0] == "absent":
            from mc.engine import Skip
            raise Skip
    for label in a[1]:
        p = same(a[1][label], b[1][label])
        if p:
            return "%s (%s) depends on which nearly equal calls came before: %s" % (name, label, p.replace("fresh process gives", "in the opposite order"))
    return None, [v for x in a[1].values() for v in x]


def near_group(gname):
    """the same for entry points without array arguments"""
    def go(backwards):
        def child():
            load_all()
            g = O.near_groups()[gname]
            vals = {}
            for label, f in (g[::-1] if backwards else g):
                res = f()
                vals[label] = [np.array(v, copy=True) for v in O.canon(res)]
                if not backwards:
                    for v in O.arrays(res):
                        if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind == "f":
                            v[...] = -55.0
            return ("ok", vals)
        return forked(child)

    def thunk():
        return near_cmp(gname, go(False), go(True))
    return thunk


BOUNDS = {"fresh": "every operation, alone in its own process, called twice",
          "cold_pairs": "all ordered pairs of operations of the same part of the package (neighbours only within dust and cosmology, loaders left to the warm walk; thorough: of the whole package), a process each",
          "entry_words": "every operation after the same function was entered another way (other values, shapes, dtypes, jit, vmap, grad, failing calls, cleared caches), twice in alternation",
          "cold_words3": "all words of length 3 over one representative operation per part, a process each",
          "orders": "all operations in one process, first executed in several orders (with the reversal every ordered pair occurs)",
          "near_words": "every function over argument sets that differ in one argument, by 2e-8 or in the interiors only, forwards in the same objects and backwards in new ones, a process each",
          "warm_pairs": "a walk over all ordered pairs of operations within one process per first-operation class"}
REPS = ("rest_sed_mdf.f", "tab_obs.f", "age_at_z_arr.f", "noll.f", "burst.f", "mzr.f", "cum_mstar.f", "surviving.f", "load_ssp:a", "ran_curve:0")


def cases(tier):
    T = tier == "thorough"
    stage = os.environ.get("MC_STAGE")
    cs = []
    allops = O.build(("f", "g", "h", "i"))
    plain = [o for o in allops if o.variant in (None, "f", "g")]
    first = [o for o in allops if o.variant in (None, "f")]
    if stage == "1":
        if T:
            return [("fresh", o.name, o.name, fresh((o.name,))) for o in allops]
        return [("fresh", o.name, o.name, fresh((o.name,) if o.variant is None else (o.name, o.name[:-2] + ".g"))) for o in first]
    # one walk over all ordered pairs per class of first operation
    nm = [o.name for o in (allops if T else plain)]
    K = 8 if T else 3
    for k in range(K):
        w = []
        for a in nm[k::K]:
            for b in nm:
                w += [a, b]
        cs.append(("warm_pairs", "first operations %d mod %d" % (k, K), "warm%d" % k, word(tuple(w))))
    # first traces in different orders: in two of them every ordered pair of operations occurs
    f = [o.name for o in first]
    gf = [x for o in first for x in ([o.name[:-2] + ".g"] if o.variant else [o.name])]
    orders = {"forward": f, "reverse, values g": gf[::-1], "reverse": f[::-1], "odd then even": f[1::2] + f[::2], "by threes": f[2::3] + f[1::3] + f[::3], "middle out": f[len(f) // 2:] + f[:len(f) // 2]}
    for n, w in list(orders.items())[:None if T else 3]:
        cs.append(("orders", n, "order" + n, word(tuple(w))))
    for o in first:
        if o.entry is not None or o.name.startswith(("interp_filters", "subset")):     # (not o.make(): that would load the package before the fork)
            cs.append(("near_words", o.name, o.name + "near", near(o.name)))
    for g in O.near_groups():
        cs.append(("near_words", g, g + "near", near_group(g)))
    for ia, a in enumerate(first):
        for ib, b in enumerate(first):
            if a is b:
                continue
            if not T and (a.cluster != b.cluster or a.cluster in ("dsps.cosmology", "dsps.dust") and abs(ia - ib) > 1
                          or a.cluster == "dsps.data_loaders"):
                continue
            an = a.name[:-2] + ".g" if a.variant == "f" else a.name
            cs.append(("cold_pairs", an + " > " + b.name, an + b.name, word((an, b.name))))
    for o in first:
        if o.variant is None:
            cs.append(("entry_words", o.name + " x3", o.name, word((o.name, (o.name, "bad"), o.name, o.name))))
            continue
        n = o.name
        g, h, i = n[:-2] + ".g", n[:-2] + ".h", n[:-2] + ".i"
        pre = [("g", g), ("bad", (n, "bad")), ("jit", (g, "jit")), ("h", (h, "call")), ("vmap", (g, "vmap")), ("grad", (g, "grad"))]
        if T:
            pre += [("i", (i, "call")), ("f32", (n, "f32")), ("clear", (g, "clear")), ("h checked", h)]
            pre = [x for x in pre if x[0] != "i" or o.entry.i is not None]
            for pn, p in pre:
                cs.append(("entry_words", "%s before %s" % (pn, n), n + pn, word((p, n, p, n))))
            cs.append(("entry_words", "long %s" % n, n + "long", word(tuple(x for pn, p in pre for x in (p, n)))))
            cs.append(("entry_words", "long reverse %s" % n, n + "longr", word(tuple(x for pn, p in pre[::-1] for x in (p, n)))))
        else:
            for grp in (pre,) if n in REPS else (pre[:4],):
                cs.append(("entry_words", "%s before %s" % ("/".join(x[0] for x in grp), n), n + grp[0][0], word(tuple(x for pn, p in grp for x in (p, n)))))
    if T:
        for w in itertools.product(REPS, repeat=3):
            cs.append(("cold_words3", " > ".join(w), str(w), word(w)))
    return cs


def run(ctx):
    O.scratch_files()
    # XLA executables, keyed by program text, are shared between the processes: only speeds them up
    os.environ.update(JAX_COMPILATION_CACHE_DIR=os.path.join(os.environ["MC_SCRATCH"], "jc"), JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0", JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1")
    if ctx.only is None:
        os.environ["MC_STAGE"] = "1"
        ctx.farm(cases(ctx.tier), BOUNDS)
        os.environ["MC_STAGE"] = "2"
        ctx.farm(cases(ctx.tier), BOUNDS)
    else:
        if ctx.only["scenario"] == "fresh":
            os.environ["MC_STAGE"] = "1"
        else:
            os.environ["MC_STAGE"] = "2"
        ctx.farm(cases(ctx.tier), BOUNDS)
