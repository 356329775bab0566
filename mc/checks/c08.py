import numpy as np
import jax
from mc.engine import bad_close
import mc.refs as R

ZS = np.unique(np.concatenate([[0.0], np.logspace(-6, np.log10(20.0), 90), np.linspace(0.05, 20, 61), [1.0, 2.0, 3.0, 0.5, 1e-3, 19.999]]))


def cosmos(thorough):
    Om = [0.3075, 0.27, 0.1, 0.5, 1.0, 0.03]
    w0 = [-1.0, -0.8, -1.3, -0.4]
    wa = [0.0, 0.3, -0.6] + ([0.6, -1.5] if thorough else [])
    h = [0.6774, 0.72, 1.0, 0.4]
    if not thorough:
        Om, w0, h = Om[:5], w0[:3], h[:3]
    return Om, w0, wa, h


def exact_and_trap(fun, z, n):
    """(exact integral, n-point trapezoid) of fun over [0, z]"""
    x = np.linspace(0, z, n)
    return R.gl_log(fun, z), float(R.trapz_v(x, fun(x)))


def run(ctx):
    from dsps.cosmology import flat_wcdm as fw
    Om, w0, wa, h = cosmos(True)
    cp = np.array([[a, b, c] for a in Om for b in w0 for c in wa])
    zs = ZS[ZS <= 20]
    zs = zs if not ctx.thorough else np.unique(np.concatenate([zs, np.logspace(-8, 1.3, 500)]))
    zs = np.unique(np.concatenate([zs, [20.0, 1.0]]))
    order = np.argsort(np.abs(zs - 0.5))
    cache = {}

    def integ(c, z):
        k = (tuple(c), z)
        if k not in cache:
            cache[k] = exact_and_trap(lambda x: 1 / R.Ez(x, *c), z, 256)
        return cache[k]

    vc = {n: jax.jit(jax.vmap(getattr(fw, n))) for n in ("comoving_distance_to_z", "luminosity_distance_to_z", "distance_modulus_to_z",
                                                         "angular_diameter_distance_to_z", "differential_comoving_volume_at_z")}
    names = dict(dc="comoving_distance_to_z", dl="luminosity_distance_to_z", mu="distance_modulus_to_z",
                 da="angular_diameter_distance_to_z", dv="differential_comoving_volume_at_z")

    def impl(c):
        a = (c["z"], c["cosmo"][:, 0], c["cosmo"][:, 1], c["cosmo"][:, 2], c["h"])
        return {k: vc[n](*a) for k, n in names.items()}

    def inv(c, o):
        z, hh = c["z"], c["h"]
        e = np.array([integ(x, q) for x, q in zip(c["cosmo"], z)])
        s = R.C_KMS / 100.0 / hh
        ex, tr = e[:, 0] * s, e[:, 1] * s
        dc = o["dc"]
        E = np.array([R.Ez(q, *x) for x, q in zip(c["cosmo"], z)])
        with np.errstate(all="ignore"):
            mu = 5 * np.log10(o["dl"] * 1e5)
            return {"matches the FLRW integral": np.abs(dc - ex) <= np.abs(tr - ex) * (1 + 1e-6) + 2e-9 * np.abs(ex) + 1e-300,
                    "finite": np.isfinite(dc), "zero at z=0": (z > 0) | (dc == 0), "positive": (z == 0) | (dc > 0),
                    "luminosity distance": np.abs(o["dl"] - (1 + z) * dc) <= 1e-12 * np.abs(o["dl"]),
                    "angular diameter distance": np.abs(o["da"] - dc / (1 + z)) <= 1e-12 * np.abs(o["da"]),
                    "distance modulus": (np.abs(o["mu"] - mu) <= 1e-9) | ((z == 0) & np.isneginf(o["mu"])),
                    "differential volume": np.abs(o["dv"] - s * (dc ** 2) / E) <= 1e-9 * np.abs(o["dv"])}

    def single(g):
        a = (g.z, g.cosmo[0], g.cosmo[1], g.cosmo[2], g.h)
        return {k: getattr(fw, n)(*a) for k, n in names.items() if not (k == "mu" and g.z == 0)}
    ctx.vproduct("relations", dict(h=np.array(h), cosmo=cp, z=zs[order]), impl, None, inv=inv, single=single, dev=1)

    # monotone in z, scaling with h, arrays == scalars, per cosmology
    def per_cosmo(c):
        zz = np.sort(zs)
        a = (c.Om0, c.w0, c.wa, c.h)
        p = []
        D = {}
        for arr, sc in (("comoving_distance", "comoving_distance_to_z"), ("luminosity_distance", "luminosity_distance_to_z"),
                        ("distance_modulus", "distance_modulus_to_z"), ("angular_diameter_distance", "angular_diameter_distance_to_z"),
                        ("differential_comoving_volume", "differential_comoving_volume_at_z")):
            D[arr] = np.asarray(getattr(fw, arr)(zz, *a))
            if D[arr].shape != zz.shape:
                return "%s: shape %s" % (arr, D[arr].shape)
            for k in (0, 1, len(zz) // 2, len(zz) - 1):
                p.append(bad_close(D[arr][k], getattr(fw, sc)(zz[k], *a), 1e-12, 1e-12))
        d = D["comoving_distance"]
        if not np.all(np.diff(d) > 0):
            p.append("comoving distance not strictly increasing at z=%r" % zz[1:][np.diff(d) <= 0][0])
        if not np.all(np.diff(D["luminosity_distance"]) > 0):
            p.append("luminosity distance not increasing")
        d2 = np.asarray(fw.comoving_distance(zz, c.Om0, c.w0, c.wa, 2 * c.h))
        p.append(bad_close(d2, d / 2, 1e-11))
        # volume derivative: Simpson quadrature of dV/dz over [z1, z2] against D_C^3/3
        for z1, z2, tol in ((0.1, 0.3, 1e-4), (1.0, 1.4, 3e-4), (5.0, 6.0, 3e-3)):
            x = np.linspace(z1, z2, 41)
            y = np.asarray(fw.differential_comoving_volume(x, *a))
            hstep = (z2 - z1) / 40
            V = hstep / 3 * (y[0] + y[-1] + 4 * y[1:-1:2].sum() + 2 * y[2:-1:2].sum())
            b = np.asarray(fw.comoving_distance(np.array([z1, z2]), *a))
            p.append(bad_close(V, (b[1] ** 3 - b[0] ** 3) / 3, tol))
        p.append(bad_close(fw.hubble_distance_mpc(c.h), R.C_KMS / 100 / c.h, 1e-12))
        ctx.outcome(d)
        return p
    ctx.product("per_cosmology", dict(Om0=Om, w0=w0, wa=wa, h=h), per_cosmo)

    # array lengths
    def lens(c):
        z = np.linspace(0.1, 5.0, c.n) if c.n > 1 else np.array([0.7])
        if c.rev:
            z = z[::-1].copy()
        a = (0.3, -0.9, 0.1, 0.7)
        p = []
        for arr, sc in (("comoving_distance", "comoving_distance_to_z"), ("luminosity_distance", "luminosity_distance_to_z"),
                        ("distance_modulus", "distance_modulus_to_z"), ("angular_diameter_distance", "angular_diameter_distance_to_z"),
                        ("differential_comoving_volume", "differential_comoving_volume_at_z")):
            x = np.asarray(getattr(fw, arr)(z, *a))
            y = np.array([float(getattr(fw, sc)(q, *a)) for q in z])
            p.append(bad_close(x, y, 1e-12))
        ctx.outcome(x)
        return p
    ctx.product("array_lengths", dict(n=[1, 2, 3, 256, 255, 257, 4, 5, 512], rev=[False, True]), lens)

    # named cosmologies
    def named(c):
        k = getattr(fw, c.name)
        vals = {"PLANCK15": (0.3075, -1.0, 0.0, 0.6774), "WMAP5": (0.277, -1.0, 0.0, 0.702), "FSPS_COSMO": (0.27, -1.0, 0.0, 0.72)}[c.name]
        p = [bad_close(np.array([k.Om0, k.w0, k.wa, k.h]), np.array(vals), 0, 0)]
        p.append(bad_close(fw.comoving_distance_to_z(c.z, *k), fw.comoving_distance_to_z(c.z, *vals), 0, 0))
        return p
    ctx.product("named", dict(name=["PLANCK15", "WMAP5", "FSPS_COSMO"], z=[1.0, 0.1, 8.0]), named)
