"""Every configuration of the import history is executed in its own process, forked before jax or the
package is loaded; the results of the operations must be those of the plain `import dsps` process."""
import fcntl
import hashlib
import importlib
import itertools
import os
import pickle
import sys
import numpy as np
from mc import ops as O
from mc.checks.c20 import forked, same

LIGHT = ("mzr_t0", "mzr_evol", "umzr_t0", "umzr_evol", "rest_flux", "ssp_weights_mdf", "ssp_weights_table", "noll", "surviving", "remnant")

NOCLEAR = True
PARTS = ("dsps.metallicity.umzr", "dsps.metallicity.mzr", "dsps.dust.att_curves", "dsps.dust.blackbody", "dsps.imf.surviving_mstar", "dsps.em_lines.equivalent_width", "dsps.sfh.diffburst",
         "dsps.cosmology.flat_wcdm", "dsps.utils", "dsps.photometry.photpop", "dsps.sed.metallicity_weights", "dsps.data_loaders.retrieve_fake_fsps_data", "dsps.data_loaders.retrieve_fsps_data", "dsps.experimental")
REDUCED = ("met_weights.f", "age_weights.f", "rest_mag.f", "age_at_z0.f", "noll.f", "bb_wave.f", "surviving.f", "mzr.f", "umzr.f", "burst.f", "cum_mstar.f", "plaw_pdf.f", "tab_rest.f", "load_ssp:a", "load_curve:r", "fake_filters", "ran_curve:0", "ran_mzr")
TINY = ("met_weights.f", "age_at_z0.f", "noll.f", "umzr.f", "load_ssp:a")
LAZY = ("dsps.metallicity.umzr", "dsps.metallicity.mzr", "dsps.dust.att_curves", "dsps.dust.blackbody", "dsps.imf.surviving_mstar", "dsps.em_lines.equivalent_width", "dsps.sfh.diffburst",
        "dsps.data_loaders.retrieve_fake_fsps_data", "dsps.experimental")
FSPS = ("absent", "ImportError", "RuntimeError", "present")
MPL = ("present", "absent", "broken")


def modules():
    import importlib.util
    root = os.path.dirname(importlib.util.find_spec("dsps").origin)
    out = []
    for d, dn, fn in os.walk(root):
        dn[:] = sorted(x for x in dn if x not in ("tests", "__pycache__", "data"))
        if "__init__.py" not in fn:
            continue
        rel = os.path.relpath(d, root).replace(os.sep, ".")
        pk = "dsps" if rel == "." else "dsps." + rel
        out.append(pk)
        out += [pk + "." + f[:-3] for f in sorted(fn) if f.endswith(".py") and f not in ("__init__.py", "_version.py")]
    return out


def observe(names):
    """results of the operations and the package's public constants"""
    from mc.checks.c20 import Mon
    m = Mon()
    res = {}
    for n in names:
        if n.startswith("fsps"):
            continue
        v, p = m.call(n)
        if v is not None:
            res[n] = v
    const = {}
    for mod in sorted(k for k in sys.modules if k == "dsps" or k.startswith("dsps.")):
        for k, v in vars(sys.modules[mod]).items():
            if k.startswith("_") or k.startswith("HAS_"):
                continue
            if isinstance(v, (bool, int, float)) or hasattr(v, "__array__") and hasattr(v, "dtype"):
                const[mod + "." + k] = np.asarray(v)
            elif isinstance(v, (tuple, dict)):
                try:
                    const[mod + "." + k] = np.array(list(v.values()) if isinstance(v, dict) else list(v), dtype=float)
                except (TypeError, ValueError):
                    pass
    return res, const


SETTINGS = dict(jax_debug_nans=True, jax_debug_infs=True, jax_disable_jit=True, jax_default_matmul_precision="float32", jax_numpy_rank_promotion="warn", jax_enable_checks=True,
                jax_default_prng_impl="rbg", jax_threefry_partitionable=False, jax_numpy_dtype_promotion="standard")


def child(order, env, cfg, early, fsps, mpl, names, retrieve, setting=None):
    def run():
        if env is None:
            os.environ.pop("JAX_ENABLE_X64", None)
        else:
            os.environ["JAX_ENABLE_X64"] = env
        if fsps == "absent":
            sys.modules["fsps"] = None
        else:
            sys.path.insert(0, os.path.join(O.STUB, {"ImportError": "fsps_importerror", "RuntimeError": "fsps_runtime", "present": "fsps_ok"}[fsps]))
        if mpl == "absent":
            sys.modules["matplotlib"] = None
        elif mpl == "broken":
            sys.path.insert(0, os.path.join(O.STUB, "mplbroken"))
        if cfg is not None or early:
            import jax
            if cfg is not None:
                jax.config.update("jax_enable_x64", cfg)
            if early == "array":
                jax.numpy.arange(3.0).sum().block_until_ready()
            elif early == "jit":
                jax.jit(lambda x: jax.numpy.exp(x) / 3)(1.0).block_until_ready()
        back = {}
        if setting:
            import jax
            for k in setting:
                back[k] = getattr(jax.config, k)
                jax.config.update(k, SETTINGS[k])
        for m in order:
            importlib.import_module(m)
        if setting:
            on = jax.config.jax_enable_x64
            for m in modules():
                importlib.import_module(m)
            lost = [k for k in setting if getattr(jax.config, k) != SETTINGS[k]]
            if not (on and jax.config.jax_enable_x64) or lost:
                return ("ok", {}, {}, ["x64 is off after importing %s" % (order,) if not lost else "importing changes the JAX settings %s" % lost])
            for k, v in back.items():
                jax.config.update(k, v)
        if retrieve:
            for m in modules():
                importlib.import_module(m)
        prob = []
        import jax
        if not jax.config.jax_enable_x64:
            prob.append("x64 is off after importing %s" % (order,))
        res, const = observe(names)
        for n, v in res.items():
            for k, x in enumerate(v):
                if x.dtype == np.float32 and not n.startswith("ran_"):
                    prob.append("%s: output %d is single precision" % (n, k))
        if retrieve:
            from dsps.data_loaders import retrieve_ssp_data_from_fsps as get
            if fsps == "present":
                m = __import__("fsps")
                m.reset(lines=None, nm=2, na=3, nw=4)
                d = get()
                if d.ssp_flux.shape != (2, 3, 4):
                    prob.append("retrieval with python-fsps present: flux of shape %s" % (d.ssp_flux.shape,))
                res["fsps"] = O.canon(d)
            else:
                try:
                    get()
                    prob.append("retrieval without python-fsps returned")
                except AssertionError:
                    pass
                except BaseException as e:
                    prob.append("retrieval without python-fsps raised %s instead of AssertionError" % type(e).__name__)
            pm = importlib.import_module("dsps.metallicity.diagnostics.plot_mzr")
            umzr = importlib.import_module("dsps.metallicity.umzr")
            if mpl == "present" and len(order) == 1 and order[0] != "dsps.data_loaders":
                fn = os.path.join(os.environ["MC_SCRATCH"], "plot%d.png" % os.getpid())
                f = pm.make_mzr_comparison_plot(umzr.DEFAULT_MZR_PARAMS, fname=fn)
                if f is None or not os.path.getsize(fn):
                    prob.append("no figure made")
            elif mpl != "present":
                try:
                    pm.make_mzr_comparison_plot(umzr.DEFAULT_MZR_PARAMS)
                    prob.append("figure made without matplotlib")
                except Exception:
                    pass
        return ("ok", res, const, prob)
    return forked(run)


def baseline(names):
    """the plain import, computed once and shared by the workers"""
    fn = os.path.join(os.environ["MC_SCRATCH"], "base24." + hashlib.md5(repr(names).encode()).hexdigest())
    with open(fn + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(fn):
            r = child(("dsps",) + tuple(modules()), None, None, None, "absent", "present", names, False)
            with open(fn + ".tmp", "wb") as f:
                pickle.dump(r, f)
            os.replace(fn + ".tmp", fn)
    with open(fn, "rb") as f:
        return pickle.load(f)


def case(order, env, cfg, early, fsps, mpl, names, retrieve=False, setting=None):
    def thunk():
        b = baseline(names)
        if b[0] != "ok":
            return "the plain import fails: " + b[1]
        r = child(order, env, cfg, early, fsps, mpl, names, retrieve, setting)
        if r[0] != "ok":
            return r[1]
        p = list(r[3])
        for n, v in r[1].items():
            if n == "fsps":
                continue
            d = same(v, b[1][n])
            if d:
                p.append("%s: %s" % (n, d.replace("fresh process", "plain import")))
        if set(b[1]) - set(r[1]):
            p.append("missing functions: %s" % sorted(set(b[1]) - set(r[1])))
        for k, v in r[2].items():
            if k in b[2]:
                d = same([v], [b[2][k]])
                if d:
                    p.append("constant %s: %s" % (k, d.replace("fresh process", "plain import")))
        return "; ".join(p[:4]) or None, [x for v in r[1].values() for x in v]
    return thunk


BOUNDS = {"first_import": "every module of the package as the first import, without matplotlib (thorough: with and without)",
          "import_pairs": "all ordered pairs of the package's parts (quick: of those the top-level package does not import itself), imported first",
          "precision": "x64 preset in the environment x in the configuration x jax used before the import, all numerical functions at three of the settings (thorough: at all)",
          "settings": "other JAX settings made before the import, singly and all together (thorough: in pairs, and all modules as first import): x64 comes on, the settings stay",
          "optional": "python-fsps state x matplotlib state x precision preset x first import, then every module"}


def cases(tier):
    T = tier == "thorough"
    cs = []
    full = tuple(o.name for o in O.build(("f", "g") if T else ("f",)) if T or o.entry is None or not (o.entry.name in LIGHT or o.entry.name.endswith("_arr")))
    D = dict(env=None, cfg=None, early=None, fsps="absent", mpl="present")
    for env, cfg, early in itertools.product((None, "0", "1"), (None, False, True), (None, "array", "jit")):
        if not T and (early == "jit" or early == "array" and (cfg, env) not in ((False, None), (None, None), (None, "0"), (True, "0"))):
            continue
        isfull = T or (env, cfg, early) in (("0", None, None), ("1", None, None), (None, False, None))
        parts = [full[k::4] for k in range(4)] if isfull else [REDUCED]
        for k, names in enumerate(parts):
            cs.append(("precision", "env %s config %s early %s functions %d/%d" % (env, cfg, early, k + 1, len(parts)), "p%s%s%s%d" % (env, cfg, early, k),
                       case(("dsps",), env, cfg, early, "absent", "present", tuple(names))))
    mods = modules()
    for m in mods:
        for env, mpl in itertools.product((None, "0", "1"), ("absent", "present")) if T else ((None, "absent"),):
            cs.append(("first_import", "%s env %s matplotlib %s" % (m, env, mpl), "m" + m + str(env) + mpl, case((m,), env, None, None, "absent", mpl, full if T else REDUCED)))
    for a, b in itertools.permutations(PARTS if T else LAZY, 2):
        cs.append(("import_pairs", "%s, %s" % (a, b), "pair" + a + b, case((a, b), None, None, None, "absent", "present", REDUCED if T else TINY)))
    for fsps, mpl, (env, cfg), first in itertools.product(FSPS, MPL, ((None, None), ("0", None), ("1", None), (None, False)), ("dsps", "dsps.metallicity.diagnostics.plot_mzr", "dsps.data_loaders")):
        dev = (fsps != "absent") + (mpl != "present") + ((env, cfg) != (None, None)) + (first != "dsps")
        if not T and dev > 2:
            continue
        cs.append(("optional", "fsps %s, matplotlib %s, env %s config %s, first %s" % (fsps, mpl, env, cfg, first), "o%s%s%s%s%s" % (fsps, mpl, env, cfg, first),
                   case((first,), env, cfg, None, fsps, mpl, REDUCED if T else TINY, True)))
    for first in ("dsps", "dsps.dust.blackbody", "dsps.metallicity.umzr", "dsps.sed.ssp_weights") + (() if not T else tuple(m for m in mods if m not in ("dsps", "dsps.dust.blackbody", "dsps.metallicity.umzr", "dsps.sed.ssp_weights"))):
        for st in [(k,) for k in SETTINGS] + [tuple(SETTINGS)] + (list(itertools.combinations(SETTINGS, 2)) if T and first == "dsps" else []):
            if first != "dsps" and not T and len(st) == 1:
                continue
            cs.append(("settings", "%s set before %s" % (st if len(st) < 3 else "all settings", first), "s%s%s" % (st, first), case((first,), None, None, None, "absent", "present", TINY if not T else REDUCED, False, st)))
    return cs


def run(ctx):
    O.scratch_files()
    os.environ.update(JAX_COMPILATION_CACHE_DIR=os.path.join(os.environ["MC_SCRATCH"], "jc"), JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0", JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1")
    ctx.farm(cases(ctx.tier), BOUNDS)
