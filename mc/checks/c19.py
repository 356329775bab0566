import itertools
import keyword
import os
import tempfile
from collections import namedtuple
import numpy as np
from mc.engine import bad_close, opt
from mc.checks.c18 import table


def run(ctx):
    from dsps.data_loaders.defaults import SSPData
    from dsps.data_loaders import load_emline_info as LE, retrieve_fsps_data as RF, retrieve_fake_fsps_data as FK
    T = ctx.thorough
    TAB = table()
    NAMES, W = [n for _, n in TAB], [w for w, _ in TAB]

    def ssp(n, nm=2, na=3, names=None, container="np"):
        names = names or ["ln%d" % i for i in range(n)]
        wave = namedtuple("EmLineWave", names)(*[1000.0 + 37.0 * ((7 * i) % n) + 0.5 * i for i in range(n)])
        lum = np.arange(nm * na * n, dtype=float).reshape(nm, na, n) * 1.7 + 3
        flux = np.arange(nm * na * 4, dtype=float).reshape(nm, na, 4)
        if container == "jax":
            import jax.numpy as jnp
            lum, flux = jnp.asarray(lum), jnp.asarray(flux)
        return SSPData(np.linspace(-3, -1, nm), np.linspace(-3, 1, na), np.linspace(1e3, 9e3, 4), flux, wave, lum)

    def check_subset(d, names, as_type=list):
        src = {n: (getattr(d.ssp_emline_wave, n), np.array(d.ssp_emline_luminosity)[:, :, i]) for i, n in enumerate(d.ssp_emline_wave._fields)}
        lum0, wave0 = np.array(d.ssp_emline_luminosity), tuple(d.ssp_emline_wave)
        arg = as_type(names)
        g = LE.get_subset_emline_data(d, arg)
        p = []
        if g.ssp_emline_wave._fields != tuple(names):
            p.append("fields %s, requested %s" % (g.ssp_emline_wave._fields[:5], tuple(names)[:5]))
        elif np.shape(g.ssp_emline_luminosity) != lum0.shape[:2] + (len(names),):
            p.append("luminosity shape %s" % (np.shape(g.ssp_emline_luminosity),))
        else:
            L = np.asarray(g.ssp_emline_luminosity)
            for k, n in enumerate(names):
                if float(getattr(g.ssp_emline_wave, n)) != src[n][0]:
                    p.append("%s has wavelength %r, expected %r" % (n, getattr(g.ssp_emline_wave, n), src[n][0]))
                if not np.array_equal(L[:, :, k], src[n][1]):
                    p.append("luminosity column %d is not that of %s" % (k, n))
        for k in ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux"):
            if not np.array_equal(getattr(g, k), getattr(d, k)):
                p.append("%s changed" % k)
        if not (np.array_equal(lum0, d.ssp_emline_luminosity) and wave0 == tuple(d.ssp_emline_wave) and list(arg) == list(names)):
            p.append("input modified")
        if type(g) is not SSPData:
            p.append("not an SSPData")
        return p

    # every ordered selection of distinct lines
    n = 5 if not T else 7
    kmax = 4 if not T else 5
    D = {c: ssp(n, container=c) for c in ("np", "jax")}

    def sel(c):
        names = ["ln%d" % i for i in c.sel]
        r = check_subset(D[c.container], names, {"list": list, "tuple": tuple}[c.form])
        ctx.outcome(str(c.sel))
        return r
    sels = [s for k in range(1, kmax + 1) for s in itertools.permutations(range(n), k)]
    if not T:
        sels += list(itertools.permutations(range(n)))
    ctx.product("ordered_selections", dict(container=["np", "jax"] if T else ["np"], form=["list", "tuple"], sel=[(repr(s), s) for s in sels]), sel)
    if not T:
        ctx.product("ordered_selections_jax", dict(container=["jax"], form=["list"], sel=[(repr(s), s) for s in itertools.permutations(range(n), 2)]), sel)

    # shapes: line count x met x age, first/last/all reversed/rotated
    def shp(c):
        d = ssp(c.n, c.nm, c.na)
        names = list(d.ssp_emline_wave._fields)
        s = {"all": names, "rev": names[::-1], "rot": names[1:] + names[:1], "first": names[:1], "last": names[-1:], "odd": names[1::2] or names}[c.kind]
        return check_subset(d, s)
    ctx.product("subset_shapes", dict(n=[1, 2, 3, 4, 9], nm=[1, 2, 4], na=[1, 3, 4], kind=["all", "rev", "rot", "first", "last", "odd"]), shp)

    # real names: every single line, every adjacent/pair with stride, subset of a subset
    RD = ssp(len(NAMES), 1, 2, names=NAMES)

    def real(c):
        k = c.k
        return check_subset(RD, {"one": [NAMES[k]], "pair": [NAMES[k], NAMES[(k * 7 + 11) % len(NAMES)]] if k != (k * 7 + 11) % len(NAMES) else [NAMES[k]],
                                 "window_rev": NAMES[max(0, k - 5):k + 1][::-1]}[c.kind])
    ctx.product("packaged_lines", dict(k=range(len(NAMES)), kind=["one", "pair", "window_rev"]), real)

    def nested(c):
        a = ["ln%d" % i for i in c.a]
        g = LE.get_subset_emline_data(D["np"], a)
        b = [a[i] for i in c.b]
        p = check_subset(g, b)
        direct = LE.get_subset_emline_data(D["np"], b)
        h = LE.get_subset_emline_data(g, b)
        p.append(bad_close(h.ssp_emline_luminosity, direct.ssp_emline_luminosity, 0))
        p.append(None if tuple(h.ssp_emline_wave) == tuple(direct.ssp_emline_wave) else "nested subset wavelengths differ")
        return p
    ctx.product("subset_of_subset", dict(a=[(repr(s), s) for s in itertools.permutations(range(n), 3)], b=[(repr(s), s) for k in (1, 2) for s in itertools.permutations(range(3), k)]), nested)

    def unknown(c):
        good = ["ln0", "ln2"]
        bad = list(good)
        bad.insert(c.pos, c.name)
        try:
            g = LE.get_subset_emline_data(D["np"], bad)
        except ValueError:
            return None
        return "unknown line %r accepted -> %s" % (c.name, g.ssp_emline_wave._fields)
    ctx.product("unknown_names", dict(name=["nope", "LN0", "ln", "ln00", "ln9", "Ha", "l"], pos=[0, 1, 2]), unknown)

    # ---- the packaged list in both readers
    fn = RF.EMLINES_INFO_PATH

    def packaged(c):
        d = LE.read_emlines_info_fsps(str(fn) if c.path == "str" else fn)
        d2, arr = LE.read_emlines_info_fsps(fn, testmode=True)
        w, raw = RF.get_fsps_emline_info() if c.path == "str" else RF.get_fsps_emline_info(fn)
        p = [None if list(d) == NAMES and list(d.values()) == W else "reader 1 differs from the file",
             None if d == d2 and list(arr) == W else "test mode differs", None if list(w) == W else "reader 2 wavelengths",
             None if len(set(NAMES)) == len(NAMES) == 166 and len(set(W)) == 166 else "names not unique"]
        bad = [x for x in d if not x.isidentifier() or keyword.iskeyword(x) or x.startswith("_")]
        p.append("invalid field names %s" % bad if bad else None)
        import re
        for x, n in zip(W, raw):        # every name carries its (air) wavelength: A, or micron for "um"/"m"
            v, unit = re.fullmatch(r"([0-9.]+)([A-Za-z]*)", str(n).split()[-1]).groups()
            v = float(v) * (1e4 if unit in ("um", "m") else 1.0)
            if abs(v / x - 1) > 1.5e-3:
                p.append("line %r listed at %r" % (str(n), x))
        rawname = [l.strip().split(",")[1] for l in open(fn)]
        p.append(None if list(raw) == rawname else "reader 2 names")
        return p
    ctx.product("packaged_list", dict(path=["str", "Path"]), packaged)

    # synthetic lists: every ordering of three lines; the readers follow the file
    tmp = tempfile.mkdtemp(dir=os.environ["MC_SCRATCH"])
    rows = [("1215.67", "H  1 1215.67A"), ("6562.8", "[N II]-6562.8"), ("5006.84", "[O III] 5007"), ("0.5", "Br-alpha 4.05m")]

    def synth(c):
        f = os.path.join(tmp, "l.dat")
        with open(f, "w") as h:
            h.write("\n".join(",".join(rows[i]) for i in c.order) + ("\n" if c.nl else ""))
        d = LE.read_emlines_info_fsps(f)
        w, raw = RF.get_fsps_emline_info(f)
        ex = {rows[i][1].replace("-", "_").replace(" ", "_").replace(".", "p").replace("[", "").replace("]", ""): float(rows[i][0]) for i in c.order}
        ctx.outcome(str(d))
        return [None if d == ex and list(d) == list(ex) else "reader 1: %s" % d, None if list(w) == [float(rows[i][0]) for i in c.order] and list(raw) == [rows[i][1] for i in c.order] else "reader 2"]
    ctx.product("synthetic_lists", dict(order=[(repr(s), s) for k in (1, 2, 3, 4) for s in itertools.permutations(range(4), k)], nl=[1, 0]), synth)

    # ---- naming by wavelength, any order
    nt, mt = opt("dsps.data_loaders.retrieve_fsps_data", "_get_emline_wave_namedtuple"), opt("dsps.data_loaders.retrieve_fsps_data", "_get_matched_emline_name")
    if nt is None:
        ctx.skip("naming", "helper renamed (covered through C18)")
    else:
        pick = [0, 1, 165, 83, 84, 40, 120][: 5 if not T else 7]

        def name(c):
            ws = [W[pick[i]] * (1 + c.eps) for i in c.order]
            g = nt(np.array(ws))
            ex = tuple(NAMES[pick[i]] for i in c.order)
            ctx.outcome(str(ex))
            return [None if g._fields == ex else "named %s, expected %s" % (g._fields, ex), None if list(g) == ws else "wavelengths %s" % (list(g),)]
        ctx.product("naming_orders", dict(eps=[0.0, 1e-8, -1e-8], order=[(repr(s), s) for k in range(1, len(pick) + 1) for s in itertools.permutations(range(len(pick)), k)]), name)

        def each(c):
            i = c.i
            ws = np.roll(W, c.roll) if c.roll >= 0 else np.array(W[::-1])
            g = nt(ws)
            k = list(ws).index(W[i])
            return None if g._fields[k] == NAMES[i] and g[k] == W[i] and len(g) == 166 else "line %s named %s" % (W[i], g._fields[k])
        ctx.product("naming_all", dict(roll=[0, 1, 83, -1], i=range(166)), each)
    if mt is not None:
        raww, rawn = RF.get_fsps_emline_info()

        def match(c):
            w = W[c.i] * (1 + c.eps)
            near = [k for k, x in enumerate(W) if abs(x - w) <= 1e-6 * abs(w)]
            g = mt(raww, rawn, w)
            if abs(c.eps) > 1.5e-6 or len(near) != 1:
                if len(near) == 0:
                    return None if g == "" else "unlisted wavelength %r named %r" % (w, g)
                return None
            return None if g == rawn[near[0]] else "wavelength %r named %r" % (w, g)
        ctx.product("matching", dict(i=range(166), eps=[0.0, 5e-7, -5e-7, 3e-6, -3e-6, 1e-3]), match)

    # ---- fake SSP data
    def fake(c):
        d = FK.load_fake_ssp_data(n_line=c.n) if c.n is not None else FK.load_fake_ssp_data()
        nl = 166 if c.n is None else c.n
        nm, na, nw = len(d.ssp_lgmet), len(d.ssp_lg_age_gyr), len(d.ssp_wave)
        p = [None if d.ssp_flux.shape == (nm, na, nw) else "flux shape",
             None if all(np.all(np.isfinite(x)) for x in d[:4]) and np.all(d.ssp_flux > 0) else "non-finite",
             None if all(np.all(np.diff(x) > 0) for x in d[:3]) else "grids not increasing"]
        if nl == 0:
            p.append(None if d.ssp_emline_wave is None and d.ssp_emline_luminosity is None else "lines for n_line=0")
        else:
            w = d.ssp_emline_wave
            p += [None if len(w) == nl and len(set(w._fields)) == nl else "%d names for %d lines" % (len(w), nl),
                  None if all(type(x) is float and np.isfinite(x) and x > 0 for x in w) and len(set(w)) == nl else "line wavelengths",
                  None if d.ssp_emline_luminosity.shape == (nm, na, nl) else "luminosity shape %s" % (d.ssp_emline_luminosity.shape,),
                  None if np.all(np.isfinite(d.ssp_emline_luminosity)) and np.all(d.ssp_emline_luminosity >= 0) else "luminosity values"]
            if c.sub:
                p += check_subset(d, list(w._fields)[::-1][:3])
        return p
    ctx.product("fake_ssp_data", dict(n=[None] + (list(range(0, 12)) + [166, 300] if not T else list(range(0, 60)) + [166, 200, 300, 400]), sub=[0, 1]), fake)

    def filters(c):
        w, *bands = FK.load_fake_filter_transmission_curves()
        p = [None if len(bands) == 6 and all(np.shape(b) == np.shape(w) for b in bands) else "shapes"]
        pk = [w[int(np.argmax(np.asarray(b)))] for b in bands]
        p.append(None if np.all(np.diff(pk) > 0) and all(np.all(np.asarray(b) >= 0) and np.all(np.asarray(b) <= 1) for b in bands) else "bands %s" % pk)
        return p
    ctx.product("fake_filters", dict(x=[0]), filters)
