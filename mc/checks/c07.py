import itertools
import numpy as np
from mc.engine import bad_close, Skip
import mc.refs as R

COSMO = (0.3075, -1.0, 0.0, 0.6774)
COSMO2 = (0.27, -0.9, 0.1, 0.72)


def data(nm, na, nf, nz, nw=40, nt=6):
    w = np.linspace(500., 12000., nw)
    i, j, k = np.meshgrid(np.arange(nm), np.arange(na), np.arange(nw), indexing="ij")
    F = 1e-4 * (1 + 2 * i) * 10 ** (-0.3 * j) * (1.5 + np.sin(0.7 * k + i - 2 * j))
    fw = np.array([np.linspace(2000. + 900 * f, 3300. + 1100 * f, nt) for f in range(nf)])
    ft = np.array([0.2 + 0.5 * np.abs(np.sin(1 + f + np.arange(nt))) for f in range(nf)])
    z = 0.1 + 0.35 * np.arange(nz)
    return w, F, fw, ft, z


def run(ctx):
    from dsps.photometry.photpop import (precompute_ssp_obsmags_on_z_table as obs, precompute_ssp_restmags as rest,
                                         precompute_ssp_restmags_z_kcorrect as kc)
    from dsps.photometry.utils import interpolate_filter_trans_curves as itc
    from dsps.photometry import calc_obs_mag, calc_rest_mag
    from dsps.cosmology.flat_wcdm import distance_modulus_to_z as dm

    # 1. every combination of axis lengths; every entry against the reference and corner entries against single calls
    sz = [2, 1, 3] if not ctx.thorough else [2, 1, 3, 4]

    def shapes(c):
        w, F, fw, ft, z = data(c.n_met, c.n_age, c.n_filt, c.n_z)
        p = []
        O = np.asarray(obs(w, F, fw, ft, z, *COSMO))
        Rm = np.asarray(rest(w, F, fw, ft))
        if O.shape != (c.n_z, c.n_met, c.n_age, c.n_filt) or Rm.shape != (c.n_met, c.n_age, c.n_filt):
            return "shapes %s %s" % (O.shape, Rm.shape)
        dms = np.array([float(dm(x, *COSMO)) - 2.5 * np.log10(1 + x) for x in z])
        want = np.array([[[[R.mag(R.band_ratio(w, F[m, a], fw[f], ft[f], x)) for f in range(c.n_filt)] for a in range(c.n_age)]
                          for m in range(c.n_met)] for x in z])
        p.append(bad_close(O, want + dms[:, None, None, None], 1e-9, 1e-9))
        wr = np.array([[[R.mag(R.band_ratio(w, F[m, a], fw[f], ft[f])) for f in range(c.n_filt)] for a in range(c.n_age)]
                       for m in range(c.n_met)])
        p.append(bad_close(Rm, wr, 1e-9, 1e-9))
        for q in (0.0, z[-1]):
            K = np.asarray(kc(w, F, fw, ft, q))
            wk = wr if q == 0 else want[-1]
            p.append(bad_close(K, wk, 1e-9, 1e-9))
        e = (c.n_z - 1, c.n_met - 1, c.n_age - 1, c.n_filt - 1)
        p.append(bad_close(O[e], calc_obs_mag(w, F[e[1], e[2]], fw[e[3]], ft[e[3]], z[e[0]], *COSMO), 1e-10))
        p.append(bad_close(Rm[e[1:]], calc_rest_mag(w, F[e[1], e[2]], fw[e[3]], ft[e[3]]), 1e-10))
        ctx.outcome(O)
        return p
    ctx.product("axis_lengths", dict(n_z=sz, n_met=sz, n_age=sz, n_filt=sz), shapes,
                dom=lambda c: ctx.thorough or max(c.idx_) < 2 or (sum(i == 2 for i in c.idx_) == 1 and 1 not in c.idx_))

    # 2. every permutation / slice of every axis is reflected in the output, equal-sized axes (3,3,3,3)
    w, F, fw, ft, z = data(3, 3, 3, 3)
    O = np.asarray(obs(w, F, fw, ft, z, *COSMO))
    Rm = np.asarray(rest(w, F, fw, ft))
    K = np.asarray(kc(w, F, fw, ft, 0.45))
    perms = [("perm%s" % "".join(map(str, q)), q) for q in itertools.permutations(range(3))] + \
            [("take%s" % "".join(map(str, q)), q) for q in itertools.product(range(3), repeat=2)]

    def perm(c):
        q = list(c.sel)
        ff, aa, mm, zz = [q if c.axis == n else list(range(3)) for n in ("filter", "age", "met", "z")]
        Fp = F[np.ix_(mm, aa)]
        o = np.asarray(obs(w, Fp, fw[ff], ft[ff], z[zz], *COSMO))
        p = [bad_close(o, O[np.ix_(zz, mm, aa, ff)], 1e-10)]
        if c.axis != "z":
            p.append(bad_close(rest(w, Fp, fw[ff], ft[ff]), Rm[np.ix_(mm, aa, ff)], 1e-10))
            p.append(bad_close(kc(w, Fp, fw[ff], ft[ff], 0.45), K[np.ix_(mm, aa, ff)], 1e-10))
        ctx.outcome(o)
        return p
    ctx.product("permutations", dict(axis=["filter", "age", "met", "z"], sel=perms), perm)

    # 3. values: redshift tables (unsorted, repeated, tiny, large), cosmologies, k-correction redshifts
    def vals(c):
        w, F, fw, ft, _ = data(2, 3, 4, 1, nw=60, nt=9)
        zt = np.array(c.zt)
        O = np.asarray(obs(w, F, fw, ft, zt, *c.cosmo))
        p = []
        for i, x in enumerate(zt):
            kk = np.asarray(kc(w, F, fw, ft, x))
            d = float(dm(x, *c.cosmo)) - 2.5 * np.log10(1 + x)
            with np.errstate(invalid="ignore"):
                p.append(bad_close(O[i], kk + d, 1e-9, 1e-9))
            for m in range(2):
                for a in range(3):
                    for f in range(4):
                        p.append(bad_close(kk[m, a, f], R.mag(R.band_ratio(w, F[m, a], fw[f], ft[f], x)), 1e-9, 1e-9))
        ctx.outcome(O)
        return p
    ctx.product("values", dict(zt=[("typical", (0.1, 0.5)), ("unsorted", (2.0, 0.3, 1.0)), ("repeat", (0.5, 0.5)), ("tiny", (1e-5,)),
                                   ("far", (6.0, 12.0)), ("zero", (0.0, 0.2)), ("long", tuple(np.linspace(0.01, 3, 25)))],
                               cosmo=[("planck", COSMO), ("w0wa", COSMO2)]), vals)

    # 4. realistic sizes: 22 x 94 SSPs, 6 filters
    def real(c):
        w, F, fw, ft, z = data(c.nm, c.na, 6, c.nz, nw=c.nw, nt=c.nt)
        O = np.asarray(obs(w, F, fw, ft, z, *COSMO))
        Rm = np.asarray(rest(w, F, fw, ft))
        p = []
        for (iz, m, a, f) in itertools.product((0, c.nz - 1), (0, 11, c.nm - 1), (0, 50, c.na - 1), (0, 3, 5)):
            d = float(dm(z[iz], *COSMO)) - 2.5 * np.log10(1 + z[iz])
            p.append(bad_close(O[iz, m, a, f], R.mag(R.band_ratio(w, F[m, a], fw[f], ft[f], z[iz])) + d, 1e-9))
            p.append(bad_close(Rm[m, a, f], R.mag(R.band_ratio(w, F[m, a], fw[f], ft[f])), 1e-9))
        p.append(None if np.all(np.isfinite(O)) and np.all(np.isfinite(Rm)) else "non-finite table")
        ctx.outcome(O)
        return p
    ctx.product("realistic", dict(nm=[22], na=[94], nw=[200, 1000] + ([6000] if ctx.thorough else []), nt=[30], nz=[3, 2]), real)

    # 5. interpolate_filter_trans_curves over ragged collections
    def curve(kind, n, off):
        if kind == "lin":
            x = np.linspace(3000. + off, 5000. + 2 * off, n)
        else:
            x = np.sort(3000. + off + 2000. * (np.arange(n) / max(n - 1, 1)) ** 2)
        return x, 0.1 + np.abs(np.cos(np.arange(n) + off))

    lens = [5, 2, 3, 9]

    def ragged(c):
        ks = [c.l0, c.l1, c.l2][:c.count]
        cs = [curve(c.kind, n, 700. * i if c.order == "up" else 700. * (5 - i)) for i, n in enumerate(ks)]
        W, T = [x[0] for x in cs], [x[1] for x in cs]
        if c.container == "tuple":
            W, T = tuple(W), tuple(T)
        Wc, Tc = [x.copy() for x in W], [x.copy() for x in T]
        a, b = itc(W, T) if c.n is None else itc(W, T, n=c.n)
        n = min(ks) if c.n is None else c.n
        p = [None if np.shape(a) == (c.count, n) and np.shape(b) == (c.count, n) else "shapes %s %s" % (np.shape(a), np.shape(b))]
        if p[0]:
            return p
        if not (hasattr(a, "shape") and hasattr(b, "shape")):
            return "not arrays: %s %s" % (type(a).__name__, type(b).__name__)
        for i in range(c.count):
            x = np.linspace(W[i].min(), W[i].max(), n)
            p.append(bad_close(a[i], x, 1e-12))
            p.append(bad_close(b[i], np.interp(x, W[i], T[i]), 1e-10, 1e-12))
            p.append(bad_close(W[i], Wc[i], 0, 0) or bad_close(T[i], Tc[i], 0, 0))
        ctx.outcome(a, b)
        return p
    ctx.product("filter_collections", dict(count=[3, 1, 2], l0=lens, l1=lens, l2=lens, n=[None, 2, 4, 50], kind=["lin", "quad"],
                                           order=["up", "down"], container=["list", "tuple"]), ragged,
                dom=lambda c: (c.count > 1 or c.l1 == 5) and (c.count > 2 or c.l2 == 5))

    # collections of any number of filters: the shortest curve, the bluest and the reddest at every position
    def many(c):
        ks = [9 + (i * 5) % 7 for i in range(c.count)]
        ks[c.short % c.count] = 4
        cs = [curve("quad", n, 300.0 * ((i - c.blue) % c.count)) for i, n in enumerate(ks)]
        W, T = [x[0] for x in cs], [x[1] for x in cs]
        a, b = itc(W, T)
        if np.shape(a) != (c.count, 4) or np.shape(b) != (c.count, 4):
            return "shapes %s %s" % (np.shape(a), np.shape(b))
        ctx.outcome(a, b)
        for i in range(c.count):
            x = np.linspace(W[i].min(), W[i].max(), 4)
            e = bad_close(a[i], x, 1e-12) or bad_close(b[i], np.interp(x, W[i], T[i]), 1e-10, 1e-12)
            if e:
                return "filter %d: %s" % (i, e)
    mx = 24 if ctx.thorough else 12
    ctx.product("many_filters", dict(count=list(range(1, mx + 1)) + [40], short=[0, -1] + list(range(1, mx)), blue=[0, 1, -1] if not ctx.thorough else list(range(mx))), many,
                dom=lambda c: c.short < c.count and c.blue < c.count)
