import hashlib
import itertools
import os
import shutil
import tempfile
import numpy as np
import h5py
from mc.engine import bad_close, Skip

LSUN = 3.828e33
KEYS = ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux")
ALL7 = KEYS + ("ssp_emline_name", "ssp_emline_wave", "ssp_emline_luminosity")


def data(tag, nm=3, na=4, nw=5, nl=2, dtype="f8"):
    """distinct contents for every tag"""
    k = sum(ord(ch) * (i + 1) for i, ch in enumerate(tag)) % 97 + 1.0
    d = dict(ssp_lgmet=np.linspace(-3, -1, nm) - k / 200, ssp_lg_age_gyr=np.linspace(-3, 1, na) + k / 300, ssp_wave=np.linspace(1000, 9000, nw) + k,
             ssp_flux=(np.arange(nm * na * nw, dtype=float).reshape(nm, na, nw) + 1) * 1e-3 * k)
    d = {a: b.astype(dtype) for a, b in d.items()}
    if nl:
        d["ssp_emline_name"] = np.array(["L%s%d_%d" % (tag, i, 7 - i) for i in range(nl)], dtype="S")
        d["ssp_emline_wave"] = (np.array([6563.0, 4861.0, 3727.0, 1216.0, 5007.0])[:nl] + k).astype(dtype)
        d["ssp_emline_luminosity"] = ((np.arange(nm * na * nl, dtype=float).reshape(nm, na, nl) + 1) * 0.07 * k).astype(dtype)
    return d


def write(fn, d):
    if os.path.exists(fn):
        os.remove(fn)
    with h5py.File(fn, "w") as h:
        for k, v in d.items():
            h[k] = v


def sha(fn):
    with open(fn, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def compare(got, d):
    """loaded namedtuple against stored content"""
    p = []
    if got._fields != KEYS + ("ssp_emline_wave", "ssp_emline_luminosity"):
        return ["fields %s" % (got._fields,)]
    for k in KEYS:
        g = np.asarray(getattr(got, k))
        if g.dtype != d[k].dtype or not np.array_equal(g, d[k]):
            p.append("%s differs from the file (%s)" % (k, bad_close(g, d[k], 0) or "dtype %s" % g.dtype))
    if "ssp_emline_name" in d:
        w = got.ssp_emline_wave
        names = tuple(n.decode() for n in d["ssp_emline_name"])
        if w is None or getattr(w, "_fields", None) != names:
            p.append("line names %s, file has %s" % (getattr(w, "_fields", w), names))
        else:
            p.append(bad_close(np.array(w), d["ssp_emline_wave"].astype(float), 0))
            if not all(type(x) is float for x in w):
                p.append("line wavelengths are not floats")
        p.append(bad_close(got.ssp_emline_luminosity, d["ssp_emline_luminosity"] * LSUN, 1e-6 if d["ssp_emline_luminosity"].dtype == "f4" else 1e-13)
                 if got.ssp_emline_luminosity is not None else "luminosities missing")
    else:
        if got.ssp_emline_wave is not None or got.ssp_emline_luminosity is not None:
            p.append("lines returned although the file stores none")
    return [x for x in p if x]


def setenv(v):
    if v is None:
        os.environ.pop("DSPS_DRN", None)
    else:
        os.environ["DSPS_DRN"] = v


def run(ctx):
    from dsps.data_loaders import load_ssp_templates as load
    from dsps.data_loaders import defaults
    BN = defaults.DEFAULT_SSP_BNAME
    T = ctx.thorough
    base = tempfile.mkdtemp(dir=os.environ["MC_SCRATCH"])
    VAR = {"a": data("a", nl=2), "b": data("b", nl=0), "c": data("c", nm=2, na=3, nw=4, nl=3)}
    same = {"a": data("a", nl=2), "A": data("q", nl=2)}      # same shapes, so same file size
    TPL = {}
    tdir = os.path.join(base, "tpl")
    os.mkdir(tdir)
    for k, v in {**VAR, "A": same["A"]}.items():
        TPL[k] = os.path.join(tdir, "t" + k)
        write(TPL[k], v)
    VAR["A"] = same["A"]

    def put(fn, tag):
        shutil.copyfile(TPL[tag], fn)

    # ---- histories: three files (explicit fn, d1/BN, d2/BN), env in {unset, d1, d2}
    FILES = ["x/f.h5", "d1/" + BN, "d2/" + BN]
    n = [0]

    def world():
        n[0] += 1
        r = os.path.join(base, "w%d" % n[0])
        for d in ("x", "d1", "d2"):
            os.makedirs(os.path.join(r, d))
        return r

    ROUTES = ["fn", "drn1", "drn2", "env", "fn+drn1"]

    def target(route, env):
        return {"fn": 0, "fn+drn1": 0, "drn1": 1, "drn2": 2, "env": env}[route]   # env None -> ValueError

    def call(route, root):
        P = lambda k: os.path.join(root, k)
        if route == "fn":
            return load(fn=P(FILES[0]))
        if route == "fn+drn1":
            return load(fn=P(FILES[0]), drn=P("d1"))
        if route == "drn1":
            return load(drn=P("d1"))
        if route == "drn2":
            return load(drn=P("d2"), bn=BN)
        return load()

    def probe(route, root, files, env):
        i = target(route, env)
        before = None if i is None or files[i] is None else sha(os.path.join(root, FILES[i]))
        try:
            got = call(route, root)
        except ValueError as e:
            return None if i is None else "route %s raised ValueError %s" % (route, e)
        except AssertionError as e:
            return None if i is not None and files[i] is None else "route %s raised AssertionError %s" % (route, e)
        if i is None:
            return "route %s returned data although no source is configured" % route
        if files[i] is None:
            return "route %s returned data although the file is missing" % route
        p = compare(got, VAR[files[i]])
        if sha(os.path.join(root, FILES[i])) != before:
            p.append("loading modified the file")
        return "route %s: %s" % (route, p[0]) if p else None

    ops = [("write %s->%s" % (v, FILES[i]), ("w", i, v)) for i in range(3) for v in ("a", "b", "c")]
    ops += [("swap-same-mtime %s" % FILES[i], ("s", i)) for i in range(3)]
    ops += [("delete %s" % FILES[i], ("d", i)) for i in range(3)]
    ops += [("env unset", ("e", None)), ("env d1", ("e", 1)), ("env d2", ("e", 2))]
    ops += [("load " + r, ("l", r)) for r in ROUTES]

    def run_hist(hist):
        root = world()
        setenv(None)
        files, env = [None] * 3, None
        seen = {}
        try:
            prob = None
            for op in hist:
                if op[0] == "w":
                    put(os.path.join(root, FILES[op[1]]), op[2])
                    files[op[1]] = op[2]
                elif op[0] == "s":
                    fn = os.path.join(root, FILES[op[1]])
                    st = os.stat(fn)
                    files[op[1]] = "A" if files[op[1]] == "a" else "a"
                    put(fn, files[op[1]])
                    os.utime(fn, ns=(st.st_atime_ns, st.st_mtime_ns))
                elif op[0] == "d":
                    os.remove(os.path.join(root, FILES[op[1]]))
                    files[op[1]] = None
                elif op[0] == "e":
                    env = op[1]
                    setenv(None if env is None else os.path.join(root, "d%d" % env))
                else:
                    prob = prob or probe(op[1], root, files, env)
                    i = target(op[1], env)
                    seen[(i,)] = None if i is None else files[i]
            last_load = bool(hist) and hist[-1][0] == "l"
            if not last_load:
                for r in ROUTES:
                    prob = prob or probe(r, root, files, env)
        finally:
            setenv(None)
            shutil.rmtree(root)
        en = [k for k, (_, op) in enumerate(ops) if not (
            (op[0] == "d" and files[op[1]] is None) or (op[0] == "s" and files[op[1]] not in ("a", "A")) or
            (op[0] == "w" and files[op[1]] == op[2]) or (op[0] == "e" and env == op[1]))]
        return (tuple(files), env, tuple(sorted((str(k), str(v)) for k, v in seen.items()))), prob, en
    ctx.bfs("histories", ops, run_hist, 3 if not T else 5)

    # ---- precedence: every combination of arguments, environment and file existence
    root = world()
    P = lambda *k: os.path.join(root, *k)
    src = {"fn": P("x", "f.h5"), "drn": P("d1", BN), "drnbn": P("d1", "other.h5"), "env": P("d2", BN), "envbn": P("d2", "other.h5")}
    tags = dict(zip(src, ["a", "b", "c", "A", "a2"]))
    VAR["a2"] = data("zz", nl=1)
    TPL["a2"] = os.path.join(tdir, "ta2")
    write(TPL["a2"], VAR["a2"])

    def prec(c):
        for k, fn in src.items():
            if os.path.exists(fn):
                os.remove(fn)
            if k not in c.missing:
                put(fn, tags[k])
        setenv(P("d2") if c.env else None)
        kw = {}
        if c.fn:
            kw["fn"] = src["fn"]
        if c.drn:
            kw["drn"] = P("d1") + ("/" if c.slash else "")
        if c.bn:
            kw["bn"] = "other.h5"
        want = "fn" if c.fn else (("drnbn" if c.bn else "drn") if c.drn else (("envbn" if c.bn else "env") if c.env else None))
        try:
            try:
                got = load(**kw)
            except ValueError:
                return None if want is None else "ValueError although %s is configured" % want
            except AssertionError:
                return None if want in c.missing else "AssertionError although %s exists" % want
            if want is None or want in c.missing:
                return "returned data although its source %s does not exist" % want
            ctx.outcome(got.ssp_wave)
            return compare(got, VAR[tags[want]])
        finally:
            setenv(None)
    miss = [(repr(m), m) for m in itertools.chain([()], itertools.combinations(src, 1), itertools.combinations(src, 4), [tuple(src)], itertools.combinations(src, 2) if T else [])]
    ctx.product("precedence", dict(fn=[0, 1], drn=[0, 1], env=[0, 1], bn=[0, 1], slash=[0, 1], missing=miss), prec)

    # positional order of the arguments and relative paths / cwd changes
    def posn(c):
        for k, fn in src.items():
            put(fn, tags[k])
        cwd = os.getcwd()
        try:
            if c.how == "positional":
                return compare(load(None, P("d1"), "other.h5"), VAR[tags["drnbn"]]) + compare(load(src["fn"], P("d1"), BN), VAR[tags["fn"]])
            if c.how == "cwd":
                os.chdir(P("d1"))
                a = load(fn=BN)
                os.chdir(P("d2"))
                b = load(fn=BN)
                d = load(drn=".", bn="other.h5")
                return compare(a, VAR[tags["drn"]]) + compare(b, VAR[tags["env"]]) + compare(d, VAR[tags["envbn"]])
            if c.how == "relative env":
                os.chdir(root)
                setenv("d2")
                a = load()
                setenv("d1")
                b = load()
                return compare(a, VAR[tags["env"]]) + compare(b, VAR[tags["drn"]])
            from pathlib import Path
            return compare(load(fn=Path(src["fn"])), VAR[tags["fn"]]) + compare(load(drn=Path(P("d1"))), VAR[tags["drn"]])
        finally:
            os.chdir(cwd)
            setenv(None)
    ctx.product("call_styles", dict(how=["positional", "cwd", "relative env", "pathlib"]), posn)

    # every way of spelling the directory or the file, against decoys in the working directory and in DSPS_DRN
    from pathlib import Path
    froot = world()
    F = lambda *k: os.path.join(froot, *k)
    DN = ["d1", "d2", "d 3", "d[4]", "d*", "~", "$HOME", "d\u00e9", "%s", "x", "."]
    where = {n: VAR_ for n, VAR_ in zip(DN, ["a", "b", "c", "A", "a2", "b", "c", "a", "A", "a2", "c"])}
    for k, tag in where.items():
        os.makedirs(F(k), exist_ok=True)
        put(F(k, BN), tag)
        put(F(k, "other.h5"), {"a": "b", "b": "c", "c": "A", "A": "a2", "a2": "a"}[tag])
    os.symlink("d1", F("ln"))
    where["ln"] = "a"
    os.makedirs(F("asdir", BN))
    os.symlink("nowhere", F("x", "broken.h5"))
    os.symlink("../d1/" + BN, F("x", "link.h5"))
    FORMS = [("empty", ("", ".")), ("dot", (".", ".")), ("dot/", ("./", "."))]
    for k in [x for x in where if x != "."]:
        FORMS += [(k, (k, k)), ("./" + k, ("./" + k, k)), (k + "/", (k + "/", k)), ("abs " + k, (F(k), k)), ("Path " + k, (Path(k), k)), ("x/../" + k, ("x/../" + k, k))]
    FORMS += [("missing", ("nodir", None)), ("a file", ("x/" + BN, None)), ("abs missing", (F("nodir"), None)), ("a directory as file", ("asdir", None))]

    def forms(c):
        expr, d = c.drn
        cwd = os.getcwd()
        os.chdir(froot)
        setenv({"unset": None, "d2": "d2", "abs d2": F("d2"), "nodir": "nodir"}[c.env])
        try:
            tag = None if d is None else where[d] if not c.bn else {"a": "b", "b": "c", "c": "A", "A": "a2", "a2": "a"}[where[d]]
            try:
                got = load(drn=expr) if not c.bn else load(drn=expr, bn="other.h5") if c.bn == 1 else load(None, expr, "other.h5")
            except AssertionError:
                return None if tag is None else "AssertionError although the file exists"
            except ValueError as e:
                return "ValueError although drn is given: %s" % e
            if tag is None:
                return "data returned although the requested file does not exist"
            ctx.outcome(c.drn[1], c.bn)
            return compare(got, VAR[tag])
        finally:
            os.chdir(cwd)
            setenv(None)
    ctx.product("directory_forms", dict(drn=FORMS, env=["unset", "d2", "abs d2", "nodir"], bn=[0, 1, 2]), forms)
    FF = [("plain", ("d1/" + BN, "a")), ("./", ("./d1/" + BN, "a")), ("x/../", ("x/../d1/" + BN, "a")), ("abs", (F("d1", BN), "a")), ("Path", (Path("d1") / BN, "a")),
          ("symlink", ("x/link.h5", "a")), ("via directory symlink", ("ln/" + BN, "a")), ("broken symlink", ("x/broken.h5", None)), ("empty", ("", None)),
          ("a directory", ("asdir/" + BN, None)), ("glob pattern", ("d?/" + BN, None)), ("dir", ("d1", None)), ("brackets", ("d[4]/" + BN, "A")), ("star", ("d*/" + BN, "a2")),
          ("trailing slash", ("d1/" + BN + "/", None)), ("missing", ("d1/none.h5", None)), ("basename only", (BN, "c"))]

    def fforms(c):
        expr, tag = c.fn
        cwd = os.getcwd()
        os.chdir(froot)
        setenv({"unset": None, "d2": "d2"}[c.env])
        kw = {} if c.drn is None else dict(drn=c.drn)
        try:
            try:
                got = load(fn=expr, **kw)
            except AssertionError:
                return None if tag is None else "AssertionError although the file exists"
            except ValueError as e:
                return "ValueError although fn is given: %s" % e
            if tag is None:
                return "data returned although the requested file does not exist"
            return compare(got, VAR[tag])
        finally:
            os.chdir(cwd)
            setenv(None)
    ctx.product("file_forms", dict(fn=FF, env=["unset", "d2"], drn=[None, "d2", ""]), fforms)

    # ---- every subset of the seven datasets
    fnp = P("x", "sub.h5")

    def subset(c):
        keep = [k for k, b in zip(ALL7, c.idx_) if b == 0]
        d = {k: VAR[c.content][k] for k in keep}
        write(fnp, d)
        h = sha(fnp)
        ok = all(k in d for k in KEYS) and ("ssp_emline_name" not in d or ("ssp_emline_wave" in d and "ssp_emline_luminosity" in d))
        try:
            got = load(fn=fnp)
        except Exception as e:
            ctx.outcome(type(e).__name__)
            return None if not ok else "complete file raised %s: %s" % (type(e).__name__, e)
        if sha(fnp) != h:
            return "file modified"
        ctx.outcome(str(keep))
        if not ok:
            return "file without %s loaded silently" % sorted(set(ALL7) - set(keep))
        return compare(got, d if "ssp_emline_name" in d else {k: d[k] for k in KEYS})
    ctx.product("dataset_subsets", dict(**{k: ["present", "absent"] for k in ALL7}, content=["a", "c"]), subset)

    # ---- every shape / dtype / dataset layout; extra datasets are ignored
    def shape(c):
        d = data("s%d%d" % (c.nm, c.nl), c.nm, c.na, c.nw, c.nl, c.dtype)
        if os.path.exists(fnp):
            os.remove(fnp)
        with h5py.File(fnp, "w") as h:
            if c.extra:
                h["zzz_extra"] = np.arange(3)
                h.attrs["note"] = "x"
            order = list(d) if c.order == "fwd" else list(d)[::-1]
            for k in order:
                if c.layout == "chunked" and d[k].dtype.kind == "f" and d[k].size > 1:
                    h.create_dataset(k, data=d[k], chunks=True, compression="gzip")
                elif k == "ssp_emline_name" and c.layout == "vlen":
                    h.create_dataset(k, data=np.array([x.decode() for x in d[k]], dtype=object), dtype=h5py.string_dtype("utf-8"))
                else:
                    h[k] = d[k]
        got = load(fn=fnp)
        ctx.outcome(got.ssp_flux)
        return compare(got, d)
    ctx.product("shapes_and_layouts", dict(nm=[3, 1, 2], na=[4, 1, 3], nw=[5, 1, 4], nl=[2, 0, 1, 5], dtype=["f8", "f4"], layout=["plain", "chunked", "vlen"],
                                           order=["fwd", "rev"], extra=[0, 1]) if T else
                dict(nm=[3, 1], na=[4, 1, 3], nw=[5, 1], nl=[2, 0, 1, 5], dtype=["f8", "f4"], layout=["plain", "chunked", "vlen"], order=["fwd", "rev"], extra=[0, 1]), shape)

    # ---- crash points: every prefix of a stored file (interrupted copy / torn write), and trailing junk
    fnt = P("x", "torn.h5")
    FULL = {}
    for k in ("a", "b", "c"):
        with open(TPL[k], "rb") as f:
            FULL[k] = f.read()

    def torn(c):
        b = FULL[c.content]
        if c.cut > len(b):
            raise Skip
        with open(fnt, "wb") as f:
            f.write(b[:c.cut] if c.how == "prefix" else b + b"x" * c.cut)
        h = sha(fnt)
        try:
            got = load(fn=fnt)
        except AssertionError as e:
            return "existing file reported missing: %s" % e
        except Exception as e:
            ctx.outcome(type(e).__name__)
            if sha(fnt) != h:
                return "file modified"
            return None if c.how != "junk after the end" and c.cut < len(b) else "complete file raised %s: %s" % (type(e).__name__, e)
        if sha(fnt) != h:
            return "file modified"
        return compare(got, VAR[c.content])
    nmax = max(map(len, FULL.values()))
    ctx.product("torn_files", dict(content=["a", "b", "c"], how=["prefix", "junk after the end"], cut=list(range(0, nmax + 1, 5 if not T else 1)) + [len(FULL[k]) - d for k in "abc" for d in (0, 1, 2)]),
                torn, dom=lambda c: c.how == "prefix" or c.cut < 40)

    # ---- returned arrays are not connected to the file or to later loads
    def indep(c):
        d = data("a")
        write(fnp, d)
        h = sha(fnp)
        g1 = load(fn=fnp)
        for k in c.clobber:
            a = getattr(g1, k)
            try:
                a[...] = -77.0
            except (ValueError, TypeError):
                pass
        g2 = load(fn=fnp)
        return compare(g2, d) + ([] if sha(fnp) == h else ["file modified through a returned array"])
    ctx.product("no_aliasing", dict(clobber=[(k, [k]) for k in KEYS + ("ssp_emline_luminosity",)] + [("all", list(KEYS) + ["ssp_emline_luminosity"])]), indep)

    # ---- dummy=True: self-consistent, whatever else is passed or set
    def dummy(c):
        put(src["fn"], "a")
        kw = dict(dummy=True)
        if c.fn:
            kw["fn"] = src["fn"] if c.fn == 1 else P("nope.h5")
        if c.drn:
            kw["drn"] = P("d1") if c.drn == 1 else P("nodir")
        setenv(P("d2") if c.env == 1 else (P("nodir") if c.env else None))
        try:
            g = load(**kw)
        finally:
            setenv(None)
        nm, na, nw = len(g.ssp_lgmet), len(g.ssp_lg_age_gyr), len(g.ssp_wave)
        nl = len(g.ssp_emline_wave)
        p = []
        if g.ssp_flux.shape != (nm, na, nw) or g.ssp_emline_luminosity.shape != (nm, na, nl) or nm < 3 or nw < 10:
            p.append("inconsistent shapes")
        if not (np.all(np.diff(g.ssp_lgmet) > 0) and np.all(np.diff(g.ssp_lg_age_gyr) > 0) and np.all(np.diff(g.ssp_wave) > 0)):
            p.append("grids not increasing")
        if not (np.all(np.isfinite(g.ssp_flux)) and np.all(g.ssp_flux > 0) and np.all(np.isfinite(g.ssp_emline_luminosity)) and np.all(g.ssp_emline_luminosity >= 0)):
            p.append("non-finite fake data")
        return p
    ctx.product("dummy", dict(fn=[0, 1, 2], drn=[0, 1, 2], env=[0, 1, 2]), dummy)
    shutil.rmtree(base)
