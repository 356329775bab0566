import itertools
import os
import shutil
import tempfile
import warnings
import numpy as np
import h5py
import jax
from mc.engine import bad_close, Skip
from mc.checks.c16 import sha, setenv


def curve(tag):
    k = sum(ord(ch) * (i + 1) for i, ch in enumerate(tag)) % 89 + 1.0
    w = np.array([3000.0, 4000.0, 5000.0, 6000.0]) + k
    return dict(wave=w, transmission=np.array([0.0, 0.5, 0.9, 0.1]) * (0.5 + k / 200))


def write(fn, d):
    if os.path.exists(fn):
        os.remove(fn)
    with h5py.File(fn, "w") as h:
        for k, v in d.items():
            h[k] = v


def same(got, d):
    w, t = np.asarray(d["wave"]), np.asarray(d["transmission"])
    p = []
    if got._fields != ("wave", "transmission"):
        p.append("fields")
    if not np.array_equal(np.asarray(got.wave), w):
        p.append("wavelengths differ from the file")
    if not np.array_equal(np.asarray(got.transmission), np.clip(t, 0, 1)):
        p.append("transmission %s, file has %s" % (np.asarray(got.transmission).tolist()[:6], t.tolist()[:6]))
    return p


def run(ctx):
    from dsps.data_loaders import load_transmission_curve as load
    from dsps.data_loaders.load_filter_data import load_random_transmission_curve as ran
    T = ctx.thorough
    base = tempfile.mkdtemp(dir=os.environ["MC_SCRATCH"])
    V = {k: curve(k) for k in ("a", "b", "c", "A", "d")}
    V["bad"] = dict(wave=np.array([1.0, 2, 3]), transmission=np.array([0.1, 1.5, 0.2]))
    tdir = os.path.join(base, "tpl")
    os.mkdir(tdir)
    TPL = {}
    for k in V:
        TPL[k] = os.path.join(tdir, "t" + k)
        write(TPL[k], V[k])
    n = [0]

    def world(filters=True):
        n[0] += 1
        r = os.path.join(base, "w%d" % n[0])
        for d in ("x", "d1", "e1", "e2", "e1/filters", "e2/filters"):
            os.makedirs(os.path.join(r, d))
        return r

    # ---- histories. two names in d1 and in e1/filters so that patterns can be ambiguous
    FILES = ["x/f.h5", "d1/g_r.h5", "d1/g_rr.h5", "e1/filters/g_r.h5", "e1/filters/g_rr.h5", "e2/filters/g_r.h5"]
    ROUTES = {"fn": dict(fn=0), "drn uniq": dict(drn="d1", pat="g_r.h5"), "drn glob": dict(drn="d1", pat="g_*"), "env uniq": dict(pat="g_r.h5"), "env glob": dict(pat="g_r*"),
              "fn+drn": dict(fn=0, drn="d1", pat="g_*")}

    def expect(r, files, env):
        """-> index of the file, or exception class"""
        q = ROUTES[r]
        if "fn" in q:
            return 0 if files[0] else AssertionError
        if "drn" in q:
            cand = [1, 2]
        elif env is None:
            return ValueError
        elif env == "missing":
            return AssertionError
        else:
            cand = [3, 4] if env == 1 else [5]
        if not q["pat"].endswith("*"):
            cand = cand[:1]
        hit = [i for i in cand if files[i]]
        return hit[0] if len(hit) == 1 else AssertionError

    def probe(r, root, files, env):
        q = ROUTES[r]
        kw = {}
        if "fn" in q:
            kw["fn"] = os.path.join(root, FILES[0])
        if "drn" in q:
            kw["drn"] = os.path.join(root, q["drn"])
        if "pat" in q:
            kw["bn_pat"] = q["pat"]
        e = expect(r, files, env)
        if isinstance(e, int) and files[e] == "bad":
            e2 = ValueError
        else:
            e2 = e
        h = sha(os.path.join(root, FILES[e])) if isinstance(e, int) else None
        try:
            got = load(**kw)
        except (ValueError, AssertionError) as x:
            if isinstance(e2, type) and isinstance(x, e2):
                return None
            return "route %s raised %s, expected %s" % (r, type(x).__name__, e2 if isinstance(e2, type) else FILES[e2])
        if isinstance(e2, type):
            return "route %s returned a curve, expected %s" % (r, e2.__name__)
        p = same(got, V[files[e]])
        if sha(os.path.join(root, FILES[e])) != h:
            p.append("file modified")
        return "route %s: %s" % (r, p[0]) if p else None

    ops = [("write %s->%s" % (v, f), ("w", i, v)) for i, f in enumerate(FILES) for v in (("a", "b", "bad") if i in (0, 3) else ("c",))]
    ops += [("swap-same-mtime " + FILES[i], ("s", i)) for i in (0, 3)]
    ops += [("delete " + f, ("d", i)) for i, f in enumerate(FILES)]
    ops += [("env " + str(v), ("e", v)) for v in (None, 1, 2, "missing")]
    ops += [("load " + r, ("l", r)) for r in ROUTES]

    def run_hist(hist):
        root = world()
        setenv(None)
        files, env, seen = [None] * len(FILES), None, {}
        prob = None
        try:
            for op in hist:
                if op[0] == "w":
                    shutil.copyfile(TPL[op[2]], os.path.join(root, FILES[op[1]]))
                    files[op[1]] = op[2]
                elif op[0] == "s":
                    fn = os.path.join(root, FILES[op[1]])
                    st = os.stat(fn)
                    files[op[1]] = "A" if files[op[1]] == "a" else "a"
                    shutil.copyfile(TPL[files[op[1]]], fn)
                    os.utime(fn, ns=(st.st_atime_ns, st.st_mtime_ns))
                elif op[0] == "d":
                    os.remove(os.path.join(root, FILES[op[1]]))
                    files[op[1]] = None
                elif op[0] == "e":
                    env = op[1]
                    setenv(None if env is None else os.path.join(root, "nodir" if env == "missing" else "e%d" % env))
                else:
                    prob = prob or probe(op[1], root, files, env)
                    e = expect(op[1], files, env)
                    seen[op[1]] = files[e] if isinstance(e, int) else e.__name__
            if not hist or hist[-1][0] != "l":
                for r in ROUTES:
                    prob = prob or probe(r, root, files, env)
        finally:
            setenv(None)
            shutil.rmtree(root)
        en = [k for k, (_, op) in enumerate(ops) if not (
            (op[0] == "d" and files[op[1]] is None) or (op[0] == "s" and files[op[1]] not in ("a", "A")) or
            (op[0] == "w" and files[op[1]] == op[2]) or (op[0] == "e" and env == op[1]))]
        return (tuple(files), env, tuple(sorted(seen.items()))), prob, en
    ctx.bfs("histories", ops, run_hist, 3 if not T else 4)

    # ---- every subset of a directory of look-alike names x every pattern
    names = ["lsst_r.h5", "lsst_r2.h5", "lsst_g.h5", "LSST_r.h5", "my_lsst_r.h5", "lsst_r.h5.bak"]
    import fnmatch
    pats = ["lsst_r*", "lsst_r.h5", "lsst_*", "lsst_?.h5", "*_r.h5", "*", "lsst_[rg].h5", "nothing*", "LSST*", "lsst_r"]
    root = world()
    dcur = os.path.join(root, "pp")
    os.makedirs(os.path.join(dcur, "filters"))
    cs = {nm: curve(nm) for nm in names}
    for nm in names:
        write(os.path.join(tdir, nm), cs[nm])
    state = {}

    def glob1(c):
        present = [nm for nm, b in zip(names, c.mask) if b]
        d = os.path.join(dcur, "filters") if c.where == "env" else dcur
        if state.get(c.where) != present:
            for nm in names:
                f = os.path.join(d, nm)
                if nm in present and not os.path.exists(f):
                    shutil.copyfile(os.path.join(tdir, nm), f)
                if nm not in present and os.path.exists(f):
                    os.remove(f)
            state[c.where] = present
        here = present + (["filters"] if c.where == "drn" else [])
        m = [nm for nm in here if fnmatch.fnmatchcase(nm, c.pat)]
        ctx.outcome(str((c.where, m)))
        setenv(dcur)
        try:
            got = load(bn_pat=c.pat, **({} if c.where == "env" else dict(drn=dcur)))
        except AssertionError:
            return None if len(m) != 1 or m == ["filters"] else "AssertionError although only %s matches" % m
        finally:
            setenv(None)
        if len(m) != 1:
            return "pattern %r matches %s but one was returned" % (c.pat, m)
        return same(got, cs[m[0]])
    ctx.product("patterns", dict(where=["env", "drn"], mask=[("".join(map(str, m)), m) for m in itertools.product([1, 0], repeat=len(names))], pat=pats), glob1)

    # ---- every set of at most two (thorough: three) entries from a pool of realistic look-alikes x every pattern:
    #      whatever distinguishes the matches (suffix, separator, case, equal content, links), one of several is never guessed
    pool = ["lsst_r.h5", "lsst_r_v1.h5", "lsst_r-v2.h5", "lsst_ra.h5", "lsst_r.hdf5", "lsst_r", "Lsst_r.h5", "lsst_r.h5~", "lsst_rr_v1.h5", ".lsst_r.h5",
            "lsst_r_transmission.h5", "suprimecam_r.h5", "lsst_i.h5", "lsst_r.1.h5", "same:lsst_r2.h5", "link:lsst_rl.h5", "dir:lsst_rd", "dangling:lsst_rx.h5"]
    ppats = ["lsst_r*", "lsst_r.*", "lsst_r.h5", "lsst_r_*", "*_r*", "lsst*r*.h5", "lsst_[!i]*", "*", "lsst_r?*.h5", ".lsst*", "LSST_R*", "lsst_r"]
    pdir = os.path.join(root, "pool")
    base_c = curve("lsst_r.h5")

    def pooled(c):
        sub = os.path.join(pdir, "filters") if c.where == "env" else os.path.join(pdir, "flat")
        shutil.rmtree(sub, ignore_errors=True)
        os.makedirs(sub)
        content, dead = {}, set()
        for e in c.entries:
            kind, _, nm = e.rpartition(":")
            f = os.path.join(sub, nm)
            if kind == "dir":
                os.mkdir(f)
                dead.add(nm)
            elif kind == "dangling":
                os.symlink(os.path.join(root, "no-such-file"), f)
                dead.add(nm)
            else:
                content[nm] = base_c if kind in ("same", "link") else pc[nm]
                src = os.path.join(tdir, "base" if kind in ("same", "link") else "p_" + nm)
                os.symlink(src, f) if kind == "link" else shutil.copyfile(src, f)
        m = [nm for nm in sorted(list(content) + list(dead)) if fnmatch.fnmatchcase(nm, c.pat) and (not nm.startswith(".") or c.pat.startswith("."))]
        ctx.outcome(str((c.where, m)))
        if len(m) > 1 and len([x for x in m if x not in dead]) == 1:
            raise Skip      # whether a directory counts as a match is not promised
        setenv(pdir)
        try:
            got = load(bn_pat=c.pat, **({} if c.where == "env" else dict(drn=sub)))
        except AssertionError:
            return None if len(m) != 1 or m[0] in dead else "AssertionError although only %s matches" % m
        finally:
            setenv(None)
        if len(m) != 1 or m[0] in dead:
            return "pattern %r matches %s but a curve was returned" % (c.pat, m)
        return same(got, content[m[0]])
    pc = {nm: curve(nm) for nm in pool if ":" not in nm}
    write(os.path.join(tdir, "base"), base_c)
    for nm in pc:
        write(os.path.join(tdir, "p_" + nm), pc[nm])
    sets_ = [()] + [x for k in range(1, 4 if T else 3) for x in itertools.combinations(pool, k)]
    ctx.product("look_alikes", dict(where=["env", "drn"], entries=[("+".join(x) or "none", list(x)) for x in sets_], pat=ppats), pooled)

    # ---- argument precedence x existence
    src = {"fn": os.path.join(root, "x", "f.h5"), "drn": os.path.join(root, "d1", "q_1.h5"), "env": os.path.join(root, "e1", "filters", "q_1.h5")}

    def prec(c):
        for (k, fn), tag in zip(src.items(), "abc"):
            if os.path.exists(fn):
                os.remove(fn)
            if k not in c.missing:
                shutil.copyfile(TPL[tag], fn)
        setenv(os.path.join(root, "e1") if c.env else None)
        kw = {}
        if c.fn:
            kw["fn"] = src["fn"]
        if c.drn:
            kw["drn"] = os.path.join(root, "d1") + "/" * c.slash
        if c.pat:
            kw["bn_pat"] = "q_*"
        want = "fn" if c.fn else ("drn" if c.drn else ("env" if c.env else None))
        if not c.pat and want in ("drn", "env"):
            raise Skip      # a directory without a pattern is outside the documented use
        try:
            got = load(**kw)
        except ValueError:
            return None if want is None else "ValueError"
        except AssertionError:
            return None if want in c.missing else "AssertionError although %s exists" % want
        finally:
            setenv(None)
        if want is None or want in c.missing:
            return "a curve was returned, source %s" % want
        return same(got, V["abc"[list(src).index(want)]])
    ctx.product("precedence", dict(fn=[0, 1], drn=[0, 1], env=[0, 1], pat=[1, 0], slash=[0, 1],
                                   missing=[(repr(m), m) for k in range(4) for m in itertools.combinations(src, k)]), prec)

    # ---- every way of spelling the directory or the file, against decoys in the working directory and in DSPS_DRN
    from pathlib import Path
    froot = os.path.join(root, "forms")
    F = lambda *k: os.path.join(froot, *k)
    DN = ["d1", "d2/filters", "d 3", "d[4]", "d*", "~", "$HOME", "d\u00e9", "x", "."]
    FW = {}
    for k in DN:
        os.makedirs(F(k), exist_ok=True)
        FW[k] = curve("form" + k)
        write(F(k, "q_1.h5"), FW[k])
    os.symlink("d1", F("ln"))
    FW["ln"] = FW["d1"]
    os.symlink("../d1/q_1.h5", F("x", "link.h5"))
    os.symlink("nowhere", F("x", "broken.h5"))
    os.makedirs(F("asdir", "q_1.h5"))
    FORMS = [("empty", ("", ".")), ("dot", (".", ".")), ("dot/", ("./", "."))]
    for k in [x for x in FW if x != "."]:
        FORMS += [(k, (k, k)), ("./" + k, ("./" + k, k)), (k + "/", (k + "/", k)), ("abs " + k, (F(k), k)), ("Path " + k, (Path(k), k)), ("x/../" + k, ("x/../" + k, k))]
    FORMS += [("missing", ("nodir", None)), ("a file", ("x/q_1.h5", None)), ("abs missing", (F("nodir"), None))]

    def forms(c):
        expr, d = c.drn
        cwd = os.getcwd()
        os.chdir(froot)
        setenv({"unset": None, "d2": "d2", "abs d2": F("d2"), "nodir": "nodir"}[c.env])
        try:
            try:
                got = load(drn=expr, bn_pat=c.pat)
            except AssertionError:
                return None if d is None else "AssertionError although exactly one file matches"
            except ValueError as e:
                return "ValueError although drn is given: %s" % e
            if d is None:
                return "a curve was returned although the requested directory does not exist"
            ctx.outcome(c.drn[1])
            return same(got, FW[d])
        finally:
            os.chdir(cwd)
            setenv(None)
    ctx.product("directory_forms", dict(drn=FORMS, env=["unset", "d2", "abs d2", "nodir"], pat=["q_*", "q_1.h5"]), forms)
    FF = [("plain", ("d1/q_1.h5", "d1")), ("./", ("./d1/q_1.h5", "d1")), ("x/../", ("x/../d1/q_1.h5", "d1")), ("abs", (F("d1", "q_1.h5"), "d1")), ("Path", (Path("d1") / "q_1.h5", "d1")),
          ("symlink", ("x/link.h5", "d1")), ("via directory symlink", ("ln/q_1.h5", "d1")), ("broken symlink", ("x/broken.h5", None)), ("empty", ("", None)),
          ("a directory", ("asdir/q_1.h5", None)), ("glob pattern", ("d?/q_1.h5", None)), ("brackets", ("d[4]/q_1.h5", "d[4]")), ("star", ("d*/q_1.h5", "d*")),
          ("star 2", ("d1/q_*", None)), ("missing", ("d1/none.h5", None)), ("basename only", ("q_1.h5", "."))]

    def fforms(c):
        expr, d = c.fn
        cwd = os.getcwd()
        os.chdir(froot)
        setenv({"unset": None, "d2": "d2"}[c.env])
        kw = {} if c.drn is None else dict(drn=c.drn)
        if c.pat:
            kw["bn_pat"] = c.pat
        try:
            try:
                got = load(fn=expr, **kw)
            except AssertionError:
                return None if d is None else "AssertionError although the file exists"
            except ValueError as e:
                return "ValueError although fn is given: %s" % e
            if d is None:
                return "a curve was returned although the requested file does not exist"
            return same(got, FW[d])
        finally:
            os.chdir(cwd)
            setenv(None)
    ctx.product("file_forms", dict(fn=FF, env=["unset", "d2"], drn=[None, "d[4]", "", "nodir"], pat=[None, "q_*", "zz*"]), fforms)

    # ---- one or two values of the curve out of range, at every position
    fn = os.path.join(root, "x", "v.h5")
    LV = [0.5, -0.0100001, 1.0100001, -0.0099999, 1.0099999, -0.01, 1.01, 0.0, 1.0, -1.0, 2.0, 100.0, 1e-300, -1e-300, np.nextafter(1.0, 2)]

    def vals(c):
        t = np.linspace(0.1, 0.9, c.n)[:: 1 if c.n % 2 else -1].copy()
        if c.i >= c.n or c.j >= c.n:
            raise Skip
        t[c.i] = c.v
        t[c.j] = c.w
        bad = bool((t < -0.01).any() or (t > 1.01).any())
        w = 3000.0 + 10 * np.arange(c.n)
        d = dict(wave=w, transmission=t)
        write(fn, d)
        h = sha(fn)
        ctx.outcome(t, bad)
        try:
            got = load(fn=fn)
        except ValueError:
            return None if bad else "ValueError for the admissible curve %s" % t.tolist()
        if sha(fn) != h:
            return "file modified"
        return "curve %s accepted" % t.tolist() if bad else same(got, d)
    ctx.product("out_of_range", dict(n=[5, 1, 2] if not T else [5, 1, 2, 3, 8], i=range(5), j=range(5), v=LV, w=LV if T else [0.5, -0.0100001, 1.0100001, 1.0, -1e-5, 5.0]), vals)

    # a non-finite entry must not hide an out-of-range one
    def nonfin(c):
        t = np.array([0.2, 0.5, 0.7, 0.1])
        if c.i == c.j:
            raise Skip
        t[c.i], t[c.j] = c.v, c.w
        with np.errstate(invalid="ignore"):
            bad = bool((t < -0.01).any() or (t > 1.01).any())
        d = dict(wave=3000.0 + 10 * np.arange(4), transmission=t)
        write(fn, d)
        try:
            got = load(fn=fn)
        except ValueError:
            return None
        if bad:
            return "curve %s accepted" % t.tolist()
        return [bad_close(got.wave, d["wave"], 0), bad_close(got.transmission, np.clip(t, 0, 1), 0)]
    ctx.product("non_finite", dict(v=[np.nan, np.inf, -np.inf], w=[0.5, 1.5, -0.5, 1.0, -0.02, 1.02, np.nan], i=range(4), j=range(4)), nonfin)

    # directory names containing pattern characters are taken literally; the look-alike decoys hold other curves
    DIRS = {"d[1]": "d1", "d*": "dd", "d?": "dq", "a b": "a_b", "[!x]y": "zy", "plain": "plain2", "d[": "dx"}

    def special(c):
        r = tempfile.mkdtemp(dir=base)
        sub = "filters" if c.how == "env" else ""
        here, decoy = os.path.join(r, c.name), os.path.join(r, DIRS[c.name])
        for d_, tag in ((here, "a"), (decoy, "b")):
            os.makedirs(os.path.join(d_, sub))
            if (c.present and d_ is here) or (c.decoy and d_ is decoy):
                shutil.copyfile(TPL[tag], os.path.join(d_, sub, "g_r.h5"))
        try:
            if c.how == "env":
                setenv(here)
                kw = {}
            elif c.how == "path":
                from pathlib import Path
                kw = dict(drn=Path(here))
            else:
                kw = dict(drn=here)
            try:
                got = load(bn_pat=c.pat, **kw)
            except AssertionError:
                return None if not c.present else "AssertionError although %s holds the file" % c.name
        finally:
            setenv(None)
            shutil.rmtree(r)
        return same(got, V["a"]) if c.present else "a curve of another directory was returned"
    ctx.product("directory_names", dict(name=list(DIRS), how=["drn", "env", "path"], pat=["g_r.h5", "g_*", "g_?.h5"], present=[1, 0], decoy=[0, 1]), special)

    def dt(c):
        t = np.array([0, 1, 1, 0]) if c.dtype.startswith("i") else np.array([0.0, 0.25, 1.004, -0.004])
        w = np.array([4000, 3000, 5000, 6000]) if c.order == "unsorted" else np.array([3000, 4000, 5000, 6000])
        d = dict(wave=w.astype(c.dtype), transmission=t.astype(c.dtype))
        write(fn, d)
        got = load(fn=fn)
        return same(got, d)
    ctx.product("dtypes", dict(dtype=["f8", "f4", "i8", "i4"], order=["sorted", "unsorted"]), dt)

    # ---- crash points: every prefix of a stored curve
    write(fn, curve("a"))
    with open(fn, "rb") as f:
        full = f.read()
    fnt = os.path.join(root, "x", "torn.h5")

    def torn(c):
        with open(fnt, "wb") as f:
            f.write(full[:c.cut])
        h = sha(fnt)
        try:
            got = load(fn=fnt)
        except AssertionError as e:
            return "existing file reported missing: %s" % e
        except Exception as e:
            ctx.outcome(type(e).__name__)
            return None if c.cut < len(full) and sha(fnt) == h else "%s: %s" % (type(e).__name__, e)
        return same(got, curve("a")) + ([] if sha(fnt) == h else ["file modified"])
    ctx.product("torn_files", dict(cut=list(range(0, len(full), 1 if T else 3)) + [len(full) - 1, len(full)]), torn)

    # ---- a file that lacks a dataset, or has extra ones
    def sets(c):
        d = {k: curve("b")[k] for k in ("wave", "transmission") if k in c.keep}
        d.update({"extra_%d" % i: np.arange(3.0) for i in range(c.extra)})
        write(fn, d)
        try:
            got = load(fn=fn)
        except AssertionError as e:
            return "existing file reported missing: %s" % e
        except Exception:
            return None if len(c.keep) < 2 else "complete file raised"
        return same(got, curve("b")) if len(c.keep) == 2 else "incomplete file loaded"
    ctx.product("dataset_subsets", dict(keep=[("both", ("wave", "transmission")), ("wave", ("wave",)), ("transmission", ("transmission",)), ("none", ())], extra=[0, 1, 3]), sets)

    def indep(c):
        write(fn, curve("a"))
        h = sha(fn)
        g = load(fn=fn)
        try:
            getattr(g, c.k)[...] = -5
        except (ValueError, TypeError):
            pass
        return same(load(fn=fn), curve("a")) + ([] if sha(fn) == h else ["file modified"])
    ctx.product("no_aliasing", dict(k=["wave", "transmission"]), indep)

    # ---- random curves
    def rnd(c):
        key = jax.random.key(c.seed) if c.kind == "key" else jax.random.PRNGKey(c.seed)
        kw = {}
        if c.wr:
            kw["wave_range"] = c.wr
        if c.scale:
            kw["scale"] = c.scale
        lo, hi = c.wr or (1000, 10000)
        s = c.scale or 300
        ctr = None
        if c.frac is not None:
            ctr = lo + c.frac * (hi - lo)
            kw["tcurve_center"] = ctr
        a = ran(key, **kw)
        b = ran(key, **kw)
        w, t = np.asarray(a.wave), np.asarray(a.transmission)
        p = [None if np.array_equal(t, np.asarray(b.transmission)) and np.array_equal(w, np.asarray(b.wave)) else "not reproducible",
             None if t.min() >= 0 and abs(t.max() - 1) < 1e-14 else "range [%r, %r]" % (t.min(), t.max()),
             None if w[0] == lo and w[-1] == hi and np.all(np.diff(w) > 0) and len(w) == len(t) else "wavelength grid"]
        dw = w[1] - w[0]
        pk = w[np.argmax(t)]
        if ctr is not None:
            p.append(None if abs(pk - ctr) <= dw / 2 * 1.0001 else "peak at %r, requested centre %r" % (pk, ctr))
            ref = np.exp(-0.5 * ((w - ctr) / s) ** 2)
            p.append(bad_close(t, ref / ref.max(), 1e-9, 1e-12))
        else:
            p.append(None if lo + 2 * s - dw <= pk <= hi - 2 * s + dw else "centre %r outside the range" % pk)
            o = np.asarray(ran(jax.random.key(c.seed + 100), **kw).transmission)
            p.append(None if not np.array_equal(o, t) else "key ignored")
        ctx.outcome(t)
        return p
    ctx.product("random_curves", dict(seed=range(3 if not T else 40), kind=["key", "PRNGKey"], wr=[("default", None), ("2k-9k", (2000, 9000)), ("narrow", (5000.0, 6800.0))],
                                      scale=[None, 200, 350.0], frac=[None, 0.5, 0.01, 0.99, 0.3]), rnd)

    def outside(c):
        try:
            ran(jax.random.key(0), tcurve_center=c.ctr)
        except AssertionError:
            return None if not 1000 < c.ctr < 10000 else "rejected"
        return None if 1000 < c.ctr < 10000 else "centre outside the range accepted"
    ctx.product("random_centre_range", dict(ctr=[5000.0, 1000.0, 10000.0, 999.0, 10001.0, -5.0, 1000.1, 9999.9]), outside)
    shutil.rmtree(base)
