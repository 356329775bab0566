"""Catalogue of public operations for history exploration (C20, C24): the numerical menu in
several argument variants plus the data-handling entry points on scratch files."""
import importlib
import os

import numpy as np

from mc import menu
from mc.checks.c16 import data, write

STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")


def scale(v):
    return v * 1.01


def shrink(v):
    return v[tuple(slice(None, -1) for _ in v.shape)].copy() if np.ndim(v) else v


VARIANTS = {"f": lambda v: v, "g": scale, "h": shrink}


def canon(x):
    """result -> list of numpy arrays, names of namedtuples included"""
    out = []

    def rec(o):
        if o is None:
            out.append(np.array("None"))
        elif isinstance(o, dict):
            for k in o:
                out.append(np.array("key " + str(k)))
                rec(o[k])
        elif isinstance(o, tuple) and hasattr(o, "_fields"):
            out.append(np.array("fields " + ",".join(o._fields)))
            for v in o:
                rec(v)
        elif isinstance(o, (list, tuple)):
            out.append(np.array("%s %d" % ("seq", len(o))))
            for v in o:
                rec(v)
        elif isinstance(o, str):
            out.append(np.array(o))
        else:
            out.append(np.asarray(o))
    rec(x)
    return out


def arrays(x):
    """live array leaves (not copies)"""
    if isinstance(x, dict):
        return [a for v in x.values() for a in arrays(v)]
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in arrays(v)]
    return [x] if hasattr(x, "shape") else []


class Op:
    """make() -> (callable, list of fresh positional inputs)"""

    def __init__(self, name, cluster, make, entry=None, variant=None, private=False):
        self.name, self.cluster, self.make, self.entry, self.variant, self.private = name, cluster, make, entry, variant, private


def scratch_files():
    base = os.path.join(os.environ["MC_SCRATCH"], "opsdata")
    os.makedirs(os.path.join(base, "filters"), exist_ok=True)
    done = os.path.join(base, "done")
    if not os.path.exists(done):
        tmp = os.path.join(base, "tmp%d" % os.getpid())

        def put(n, d):
            write(tmp, d)
            os.replace(tmp, os.path.join(base, n))
        put("ssp_a.h5", data("a", nl=2))
        put("ssp_b.h5", data("b", nm=2, na=3, nl=0))
        put("ssp_data_fsps_v3.2_lgmet_age.h5", data("q", nl=3))
        for k, n in enumerate(("r_one", "r_two", "g_one")):
            put("filters/%s_transmission.h5" % n, dict(wave=3000.0 + 400 * np.arange(5) + 7 * k, transmission=np.array([0.0, 0.5, 0.9 - 0.1 * k, 0.3, 0.0])))
        open(done, "w").close()
    return base


def env_ops():
    """data-handling operations"""
    out = []

    def add(name, cluster, f, ins=lambda: []):
        out.append(Op(name, cluster, lambda: (f, ins())))

    def m(n):
        return importlib.import_module(n)

    def with_drn(f):
        def g(*a):
            old = os.environ.get("DSPS_DRN")
            os.environ["DSPS_DRN"] = scratch_files()
            try:
                return f(*a)
            finally:
                if old is None:
                    del os.environ["DSPS_DRN"]
                else:
                    os.environ["DSPS_DRN"] = old
        return g
    dl = "dsps.data_loaders"
    add("load_ssp:a", dl, lambda: m(dl).load_ssp_templates(fn=os.path.join(scratch_files(), "ssp_a.h5")))
    add("load_ssp:b", dl, lambda: m(dl).load_ssp_templates(drn=scratch_files(), bn="ssp_b.h5"))
    add("load_ssp:env", dl, with_drn(lambda: m(dl).load_ssp_templates(bn="ssp_data_fsps_v3.2_lgmet_age.h5")))
    add("load_curve:r", dl, lambda: m(dl).load_transmission_curve(fn=os.path.join(scratch_files(), "filters", "r_two_transmission.h5")))
    add("load_curve:pat", dl, lambda: m(dl).load_transmission_curve(bn_pat="r_one*", drn=os.path.join(scratch_files(), "filters")))
    add("load_curve:env", dl, with_drn(lambda: m(dl).load_transmission_curve(bn_pat="g_*")))
    lf = dl + ".load_filter_data"

    def key(n):
        import jax
        return jax.random.key(n)
    add("ran_curve:0", dl, lambda: m(lf).load_random_transmission_curve(ran_key=key(0)))
    add("ran_curve:1", dl, lambda: m(lf).load_random_transmission_curve(ran_key=key(1), wave_range=(2000, 20000), scale=500))
    add("ran_curve:c", dl, lambda: m(lf).load_random_transmission_curve(tcurve_center=6000.0))
    fk = dl + ".retrieve_fake_fsps_data"
    add("fake_filters", dl, lambda: m(fk).load_fake_filter_transmission_curves())
    add("fake_ssp", dl, lambda: tuple(m(fk).load_fake_ssp_data(n_line=3)[:4]))
    add("fake_ssp:0", dl, lambda: m(fk).load_fake_ssp_data(n_line=0))
    em = dl + ".load_emline_info"

    def ssp(kind):
        from collections import namedtuple
        d = data("s", nl=4)
        L = namedtuple("EmLineWave", ["Ha", "Hb", "OII", "Lya"] if kind == 0 else ["Lya", "OII", "Hb", "Ha"])
        return [d["ssp_lgmet"], d["ssp_lg_age_gyr"], d["ssp_wave"], d["ssp_flux"], L(*[float(x) for x in d["ssp_emline_wave"]]), d["ssp_emline_luminosity"]]

    def sub(*a):
        return m(em).get_subset_emline_data(m(dl).SSPData(*a[:-1]), a[-1])
    for tag, kind, names in (("a", 0, ["OII", "Ha"]), ("b", 1, ["OII", "Ha"]), ("c", 0, ["Lya"]), ("d", 0, ["Lya", "Hb", "OII", "Ha"]), ("e", 1, ["Ha", "Lya", "OII"])):
        add("subset:" + tag, dl, sub, lambda kind=kind, names=names: ssp(kind) + [list(names)])

    def interp(n):
        def f(w1, w2, t1, t2):
            ws, ts = [w1, w2], [t1, t2]
            r = m("dsps.photometry.utils").interpolate_filter_trans_curves(ws, ts) if n is None else m("dsps.photometry.utils").interpolate_filter_trans_curves(ws, ts, n=n)
            return r, np.array(float(len(ws) == 2 and ws[0] is w1 and ws[1] is w2 and len(ts) == 2 and ts[0] is t1 and ts[1] is t2))
        return f
    add("interp_filters", "dsps.photometry", interp(4), lambda: [menu.FW.copy(), menu.FW[:4] + 300.0, menu.FT.copy(), menu.FT[:4] * 0.5])
    add("interp_filters:n", "dsps.photometry", interp(None), lambda: [menu.FW + 10.0, menu.FW[:3] + 300.0, menu.FT * 0.3, menu.FT[:3] * 0.5])
    add("ran_mzr", "dsps.metallicity", lambda: m("dsps.metallicity.umzr").get_ran_t0_params(key(2)))

    def fsps(**kw):
        def f():
            import fsps
            r = m(dl + ".retrieve_fsps_data")
            fsps.reset(lines=None, nm=2, na=3, nw=4)
            return r.retrieve_ssp_data_from_fsps(**kw)
        return f
    add("fsps", dl, fsps())
    add("fsps:kw", dl, fsps(add_neb_emission=False, imf_type=1))
    return out


def drn_ops():
    """calls that read DSPS_DRN, which the caller sets"""
    def m(n):
        return importlib.import_module(n)
    dl = "dsps.data_loaders"

    def fsps(**kw):
        def f():
            import fsps
            r = m(dl + ".retrieve_fsps_data")
            fsps.reset(lines=[926.226, 1025.72, 1215.67], nm=2, na=3, nw=4)        # one configuration: the stand-in's is global
            return r.retrieve_ssp_data_from_fsps(**kw)
        return f
    return [Op("fsps:lines", dl, lambda: (fsps(), [])), Op("fsps:lines_kw", dl, lambda: (fsps(add_neb_emission=False, imf_type=1), [])),
            Op("fsps_lines", dl, lambda: (lambda: m(dl + ".retrieve_fsps_data").get_fsps_emline_info(), [])),
            Op("load_ssp:drn", dl, lambda: (lambda: m(dl).load_ssp_templates(bn="ssp_a.h5"), [])),
            Op("load_curve:drn", dl, lambda: (lambda: m(dl).load_transmission_curve(bn_pat="r_t*"), []))]


def near_groups():
    """entry points without array arguments: calls that agree in most of their arguments"""
    def m(n):
        return importlib.import_module(n)

    def key(n):
        import jax
        return jax.random.key(n)
    dl = "dsps.data_loaders"
    rc = lambda **k: m(dl + ".load_filter_data").load_random_transmission_curve(**k)
    fs = lambda n: (lambda r: tuple(r[:3]) + (np.array(r[3][::7, ::31, ::400]), np.array(r[3].shape), np.array(np.shape(r[5]))))(m(dl + ".retrieve_fake_fsps_data").load_fake_ssp_data(n_line=n))     # line names and luminosities are drawn at random

    def fsps(**kw):
        import fsps as F
        F.reset(lines=None, nm=2, na=3, nw=4)
        return m(dl + ".retrieve_fsps_data").retrieve_ssp_data_from_fsps(**kw)

    def put(v, same_stat):
        """rewrite one file with other values of the same size (and, if asked, the same time stamps)"""
        fn = os.path.join(scratch_files(), "near%d.h5" % os.getpid())
        st = os.stat(fn) if os.path.exists(fn) else None
        d = data("n", nl=2)
        d["ssp_flux"] = d["ssp_flux"] * v
        write(fn, d)
        if same_stat and st is not None:
            os.utime(fn, ns=(st.st_atime_ns, st.st_mtime_ns))
        return m(dl).load_ssp_templates(fn=fn)

    def putc(v, same_stat):
        fn = os.path.join(scratch_files(), "nearc%d.h5" % os.getpid())
        st = os.stat(fn) if os.path.exists(fn) else None
        write(fn, dict(wave=3000.0 + 400 * np.arange(5), transmission=np.array([0.0, 0.5, 0.9, 0.3, 0.0]) * v))
        if same_stat and st is not None:
            os.utime(fn, ns=(st.st_atime_ns, st.st_mtime_ns))
        return m(dl).load_transmission_curve(fn=fn)
    return {
        "random curves": [("key 0", lambda: rc(ran_key=key(0))), ("key 1", lambda: rc(ran_key=key(1))), ("scale", lambda: rc(ran_key=key(0), scale=350.0)), ("scale nearly", lambda: rc(ran_key=key(0), scale=350.00001)),
                          ("range", lambda: rc(ran_key=key(0), wave_range=(2000, 9000))), ("upper", lambda: rc(ran_key=key(0), wave_range=(2000, 9000.25))), ("centre", lambda: rc(ran_key=key(0), tcurve_center=5000.0)),
                          ("centre nearly", lambda: rc(ran_key=key(0), tcurve_center=5000.25)), ("centre, key 1", lambda: rc(ran_key=key(1), tcurve_center=5000.0))],
        "fake data": [("0", lambda: fs(0)), ("3", lambda: fs(3)), ("filters", lambda: m(dl + ".retrieve_fake_fsps_data").load_fake_filter_transmission_curves()), ("1", lambda: fs(1))],
        "fsps": [("plain", lambda: fsps()), ("neb", lambda: fsps(add_neb_emission=False)), ("imf", lambda: fsps(imf_type=1)), ("both", lambda: fsps(imf_type=1, add_neb_emission=False)), ("other imf", lambda: fsps(imf_type=2))],
        "draws": [("k%d" % k, lambda k=k: m("dsps.metallicity.umzr").get_ran_t0_params(key(k))) for k in range(3)],
        "rewritten templates": [("v%g%s" % (v, s), lambda v=v, s=s: put(v, s)) for v, s in ((1.0, False), (1.5, True), (2.0, False), (1.25, True))],
        "rewritten curves": [("v%g%s" % (v, s), lambda v=v, s=s: putc(v, s)) for v, s in ((1.0, False), (0.5, True), (0.75, False), (0.25, True))],
    }


def build(variants=("f", "g", "h")):
    out = []
    for e in menu.build():
        for v in variants:
            def make(e=e, v=v):
                fn = e.fn()
                conv = VARIANTS.get(v)
                a = e.i if v == "i" else e.f
                return fn, [np.array(x, dtype=float, copy=True) if np.ndim(x) else float(x) for x in (conv(y) if conv else y for y in a.values())]
            if v == "i" and e.i is None:
                continue
            out.append(Op("%s.%s" % (e.name, v), ".".join(e.mod.split(".")[:2]) if e.mod != "dsps.utils" else "dsps.utils", make, e, v, e.private))
    return out + env_ops()
