import contextlib
import io
import itertools
import json
import os
import runpy
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import h5py
from mc.engine import bad_close, VERIF
from mc.checks.c16 import sha

STUB = os.path.join(VERIF, "mc", "stubs", "fsps_ok")
REPO = os.environ.get("MC_REPO", "/repo")        # the development runner points this at scratch copies
SCRIPT = REPO + "/scripts/write_fsps_data_to_disk.py"
LSUN = 3.828e33


def table():
    """the packaged list, parsed by hand: [(wavelength, field name)]"""
    out = []
    for line in open(REPO + "/dsps/data/emlines_info.dat"):
        w, n = line.strip().split(",")
        n = n.replace(".", "p").replace("-", "_").replace(" ", "_").replace("[", "").replace("]", "")
        out.append((float(w), n))
    return out


def run(ctx):
    sys.path.insert(0, STUB)
    import fsps
    assert fsps.__file__.startswith(STUB)
    from dsps.data_loaders import retrieve_fsps_data as RF, load_ssp_templates
    TAB = table()
    NAME = dict(TAB)
    W = [w for w, _ in TAB]
    LINES = {"all": W, "none": None, "two": [W[3], W[0]], "reversed": W[::-1], "one": [W[100]], "every7": W[::7], "near": [w * (1 + 1e-8) for w in W[5:25]]}
    tmp = tempfile.mkdtemp(dir=os.environ["MC_SCRATCH"])

    def nm_of(w):
        return NAME[min(W, key=lambda x: abs(x - w))]

    def want(cfg, kw):
        z, a, w = (fsps.grid())
        nm = len(z)
        d = dict(ssp_lgmet=np.log10(z), ssp_lg_age_gyr=a - 9.0, ssp_wave=w, ssp_flux=np.array([fsps.spectrum(i, kw) for i in range(1, nm + 1)]))
        if cfg["lines"] is not None:
            d["names"] = tuple(nm_of(x) for x in cfg["lines"])
            d["waves"] = np.array(cfg["lines"])
            d["lum"] = np.array([fsps.lines(i, kw) for i in range(1, nm + 1)])
        return d

    def cmp(g, d, scale):
        p = []
        for k in ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux"):
            b = bad_close(getattr(g, k), d[k], 1e-12)
            if b:
                p.append("%s: %s" % (k, b))
        if "names" in d:
            if getattr(g.ssp_emline_wave, "_fields", None) != d["names"]:
                p.append("line names %s" % (getattr(g.ssp_emline_wave, "_fields", None),))
            else:
                p.append(bad_close(np.array(g.ssp_emline_wave), d["waves"], 1e-12))
            p.append(bad_close(g.ssp_emline_luminosity, d["lum"] * scale, 1e-12) if g.ssp_emline_luminosity is not None else "no luminosities")
        elif g.ssp_emline_wave is not None or g.ssp_emline_luminosity is not None:
            p.append("lines without line support")
        return p

    def calls_ok(nm, kw):
        sp = [(z, k) for kind, z, k in fsps.LOG if kind == "spectrum"]
        p = []
        if [z for z, _ in sp] != list(range(1, nm + 1)):
            p.append("spectra computed for metallicity indices %s" % [z for z, _ in sp])
        for z, k in sp:
            if k != kw:
                p.append("model at zmet=%d called with %s, user asked for %s" % (z, k, kw))
                break
        ini = [k for kind, z, k in fsps.LOG if kind == "init"]
        if any(k.get("zcontinuous") != 0 for k in ini):
            p.append("zcontinuous != 0")
        return p

    KW = {"default": {}, "no_neb": dict(add_neb_emission=False), "gas": dict(gas_logz=0.0, gas_logu=-2.0), "imf": dict(imf_type=1, add_neb_emission=True), "gasu": dict(gas_logu=-3.5, add_neb_emission=False)}

    def retrieve(c):
        cfg = dict(nm=c.nm, na=c.na, nw=c.nw, lines=LINES[c.lines])
        fsps.reset(**cfg)
        with contextlib.redirect_stdout(io.StringIO()):
            g = RF.retrieve_ssp_data_from_fsps(**KW[c.kw])
        kw = dict(add_neb_emission=True, **{k: v for k, v in KW[c.kw].items() if k != "add_neb_emission"})
        kw["add_neb_emission"] = KW[c.kw].get("add_neb_emission", True)
        p = calls_ok(c.nm, kw)
        p += cmp(g, want(cfg, kw), 1.0)
        ctx.outcome(g.ssp_flux)
        return p
    sh = dict(nm=[3, 1, 2, 5, 22], na=[4, 1, 3, 11], nw=[5, 1, 3])
    if not ctx.thorough:
        sh = dict(nm=[3, 1, 2, 5, 12], na=[4, 1, 3], nw=[5, 1])
    ctx.product("retrieval", dict(lines=list(LINES), kw=list(KW), **sh), retrieve)

    # every subset of a set of user keywords (falsy values included) x nebular setting
    UK = dict(imf_type=1, gas_logz=0.0, gas_logu=-2.0, sfh=0, zred=0.5, smooth_velocity=False, dust_type=None)

    def keywords(c):
        kw = {k: UK[k] for k, on in zip(UK, c.mask) if on}
        if c.neb is not None:
            kw["add_neb_emission"] = c.neb
        cfg = dict(nm=2, na=2, nw=3, lines=LINES[c.lines])
        fsps.reset(**cfg)
        with contextlib.redirect_stdout(io.StringIO()):
            g = RF.retrieve_ssp_data_from_fsps(**kw)
        kw.setdefault("add_neb_emission", True)
        ctx.outcome(g.ssp_flux)
        return calls_ok(2, kw) + cmp(g, want(cfg, kw), 1.0)
    ctx.product("keywords", dict(lines=["two", "none"], neb=[None, True, False], mask=[("".join(map(str, m)), m) for m in itertools.product([0, 1], repeat=len(UK))]), keywords)

    # ---- the script, in process
    def argvs(c):
        a = []
        if c.logz is not None:
            a += ["--gas_logz=%s" % c.logz] if c.eq else ["--gas_logz", str(c.logz)]
        if c.logu is not None:
            a += ["--gas_logu=%s" % c.logu] if c.eq else ["--gas_logu", str(c.logu)]
        return a

    def script(argv):
        old = sys.argv
        sys.argv = [SCRIPT] + argv
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                runpy.run_path(SCRIPT, run_name="__main__")
            return None
        except SystemExit as e:
            return None if e.code in (None, 0) else e
        except BaseException as e:
            return e
        finally:
            sys.argv = old

    def gaskw(c):
        kw = dict(add_neb_emission=True)
        if c.logz is not None:
            kw["gas_logz"] = float(c.logz)
        if c.logu is not None:
            kw["gas_logu"] = float(c.logu)
        return kw
    nout = [0]

    def prior(kind, fn):
        if kind == "ssp":
            with h5py.File(fn, "w") as h:
                h["ssp_lgmet"] = np.arange(7.0)
                h["ssp_emline_name"] = np.array(["old"], dtype="S")
        elif kind == "junk":
            with open(fn, "wb") as f:
                f.write(b"not an hdf5 file " * 50)

    def disk(c):
        cfg = dict(nm=c.nm, na=3, nw=4, lines=LINES[c.lines])
        fsps.reset(**cfg)
        fn = os.path.join(tmp, "o%d.h5" % nout[0])
        nout[0] += 1
        prior(c.prior, fn)
        a = argvs(c)
        e = script([fn] + a if c.pos == 0 else a + [fn])
        if e is not None:
            return "script failed: %r" % e
        kw = gaskw(c)
        p = calls_ok(c.nm, kw)
        g = load_ssp_templates(fn=fn)
        p += cmp(g, want(cfg, kw), LSUN)
        os.remove(fn)
        ctx.outcome(g.ssp_flux)
        return p
    ctx.product("script_round_trip", dict(lines=list(LINES), logz=[None, 0.0, -1.5, 0.5], logu=[None, 0.0, -2.0, -4.0], eq=[0, 1], nm=[3, 1], prior=["none", "ssp"], pos=[0, 1])
                if ctx.thorough else dict(lines=["all", "none", "two", "one"], logz=[None, 0.0, -1.5], logu=[None, 0.0, -2.0], eq=[0, 1], nm=[3, 1], prior=["none", "ssp"], pos=[0]), disk)

    # models whose grids are not in increasing order: every array keeps the model's order
    def order(c):
        cfg = dict(nm=3, na=3, nw=3, lines=LINES[c.lines], z_order=c.z, age_order=c.age, wave_order=c.wave)
        fsps.reset(**cfg)
        with contextlib.redirect_stdout(io.StringIO()):
            g = RF.retrieve_ssp_data_from_fsps()
        kw = dict(add_neb_emission=True)
        p = calls_ok(3, kw) + cmp(g, want(cfg, kw), 1.0)
        ctx.outcome(g.ssp_flux)
        if c.disk:
            fsps.reset(**cfg)
            fn = os.path.join(tmp, "order.h5")
            e = script([fn])
            p += ["script failed: %r" % e] if e is not None else cmp(load_ssp_templates(fn=fn), want(cfg, kw), LSUN)
            os.remove(fn)
        return p
    pm = [(repr(q), q) for q in itertools.permutations(range(3))]
    ctx.product("grid_order", dict(age=pm, z=pm, wave=pm if ctx.thorough else pm[:1] + pm[-1:], lines=["two", "none"], disk=[0, 1] if ctx.thorough else [1]), order)

    # ---- a fault at every model call
    def ncalls(cfg):
        fsps.reset(**cfg)
        fn = os.path.join(tmp, "probe.h5")
        e = script([fn])
        n = fsps.N[0]
        if os.path.exists(fn):
            os.remove(fn)
        return n

    cfgs = {}
    for l in ("two", "none", "all"):
        for nm in (3, 1, 2) + ((22,) if ctx.thorough else ()):
            cfg = dict(nm=nm, na=3, nw=4, lines=LINES[l])
            cfgs[l, nm] = (cfg, ncalls(cfg))
    kmax = max(n for _, n in cfgs.values())

    def fault(c):
        cfg, n = cfgs[c.lines, c.nm]
        if c.at > n:
            from mc.engine import Skip
            raise Skip
        fn = os.path.join(tmp, "f%d.h5" % nout[0])
        nout[0] += 1
        prior(c.prior, fn)
        before = (sha(fn), os.stat(fn).st_ino) if os.path.exists(fn) else None
        fsps.reset(**cfg, fail_at=c.at, exc=c.exc)
        e = script([fn, "--gas_logu", "-2.0"])
        kind = fsps.LOG[c.at - 1][0] if len(fsps.LOG) >= c.at else "?"
        ctx.outcome(kind)
        p = []
        if e is None:
            p.append("fault in %s (call %d) ignored: script succeeded" % (kind, c.at))
        if before is not None and (not os.path.exists(fn) or sha(fn) != before[0]):
            p.append("fault in %s (call %d) changed the existing output" % (kind, c.at))
        if os.path.exists(fn):
            os.remove(fn)
        return p
    ctx.product("faults", dict(lines=["two", "none", "all"], nm=sorted({k[1] for k in cfgs}), at=range(1, kmax + 1), prior=["ssp", "junk", "none"],
                               exc=["RuntimeError", "OSError", "KeyboardInterrupt"] if not ctx.thorough else ["RuntimeError", "OSError", "ValueError", "MemoryError", "KeyboardInterrupt", "AssertionError"]), fault)

    # ---- a failing write of the same data must not claim success
    def usage(c):
        fsps.reset(nm=2, na=3, nw=4, lines=None)
        fn = os.path.join(tmp, "u.h5")
        prior("ssp", fn)
        h = sha(fn)
        e = script({"bad_float": [fn, "--gas_logz", "abc"], "unknown": [fn, "--nope", "1"], "no_value": [fn, "--gas_logu"]}[c.kind])
        return [None if e is not None else "bad command line accepted", None if sha(fn) == h else "bad command line changed the output"]
    ctx.product("bad_usage", dict(kind=["bad_float", "unknown", "no_value"]), usage)

    # ---- the same through a real interpreter: exit status and file contents
    def proc(job):
        lines, at, pr = job
        fn = os.path.join(tmp, "p_%s_%s_%s.h5" % (lines, at, pr))
        prior(pr, fn)
        h = sha(fn) if os.path.exists(fn) else None
        cfg = dict(nm=2, na=3, nw=4, lines=LINES[lines])
        if at:
            cfg.update(fail_at=at)
        env = dict(os.environ, PYTHONPATH=REPO + ":" + STUB, MC_FSPS=json.dumps(cfg))
        r = subprocess.run([sys.executable, SCRIPT, fn, "--gas_logz", "0.0"], env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        return job, (r.returncode, fn, h, r.stdout.decode(errors="replace")[-300:])
    jobs = []
    for lines in ("two", "none"):
        n = cfgs[lines, 2][1]
        jobs += [(lines, at, pr) for at in range(0, n + 1) for pr in (("ssp", "none") if ctx.thorough or at == 0 else ("ssp",))]
    res = {}
    if ctx.want("script_processes"):
        with ThreadPoolExecutor(8) as ex:
            res = dict(ex.map(proc, jobs))

    def check(c):
        lines, at, pr = c.job
        rc, fn, h, out = res[c.job]
        ctx.outcome(rc, at)
        if at == 0:
            if rc != 0:
                return "exit status %d: %s" % (rc, out)
            cfg = dict(nm=2, na=3, nw=4, lines=LINES[lines])
            fsps.reset(**cfg)
            return cmp(load_ssp_templates(fn=fn), want(cfg, dict(add_neb_emission=True, gas_logz=0.0)), LSUN)
        return [None if rc != 0 else "exit status 0 although call %d failed" % at, None if h is None or (os.path.exists(fn) and sha(fn) == h) else "existing output changed"]
    ctx.product("script_processes", dict(job=[(repr(j), j) for j in jobs]), check)
