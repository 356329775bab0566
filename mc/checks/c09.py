import numpy as np
import jax
from mc.engine import bad_close
import mc.refs as R
from mc.checks.c08 import ZS, cosmos


def run(ctx):
    from dsps.cosmology import flat_wcdm as fw
    from dsps import cosmology as C
    Om, w0, wa, h = cosmos(True)
    cp = np.array([[a, b, c] for a in Om for b in w0 for c in wa])
    zs = ZS if not ctx.thorough else np.unique(np.concatenate([ZS, np.logspace(-8, 1.3, 500)]))
    zs = np.unique(np.concatenate([zs, [20.0, 1.0]]))
    order = np.argsort(np.abs(zs - 0.5))
    memo = {}

    def integ(c, z):
        k = (tuple(c), z)
        if k not in memo:
            f = lambda x: 1 / R.Ez(x, *c) / (1 + x)
            x = np.linspace(0, z, 512)
            memo[k] = R.gl_log(f, z), float(R.trapz_v(x, f(x)))
        return memo[k]

    def age0(c):
        k = tuple(c)
        if k not in memo:
            f = lambda x: 1 / R.Ez(x, *c) / (1 + x)
            x = np.logspace(0, 3, 512) - 1
            memo[k] = R.gl_log(f, 999.0), float(R.trapz_v(x, f(x)))
        return memo[k]

    vl, v0, va, vr, vd = (jax.jit(jax.vmap(getattr(fw, n))) for n in
                          ("lookback_to_z", "age_at_z0", "age_at_z", "rho_crit", "virial_dynamical_time"))

    def impl(c):
        k = (c["cosmo"][:, 0], c["cosmo"][:, 1], c["cosmo"][:, 2], c["h"])
        return {"look": vl(c["z"], *k), "age0": v0(*k), "age": np.asarray(va(c["z"], *k))[:, 0], "rho": vr(c["z"], *k),
                "tdyn": vd(c["z"], *k)}

    def inv(c, o):
        th = R.hubble_time_gyr(c["h"])
        e = np.array([integ(x, q) for x, q in zip(c["cosmo"], c["z"])])
        a0 = np.array([age0(x) for x in c["cosmo"]])
        E = np.array([R.Ez(q, *x) for x, q in zip(c["cosmo"], c["z"])])
        Omz = c["cosmo"][:, 0] * (1 + c["z"]) ** 3 / E ** 2
        ex, tr = e[:, 0] * th, e[:, 1] * th
        ax, at = a0[:, 0] * th, a0[:, 1] * th
        return {"lookback matches the FLRW integral": np.abs(o["look"] - ex) <= np.abs(tr - ex) * (1 + 1e-6) + 2e-9 * ex + 1e-300,
                "zero at z=0": (c["z"] > 0) | (o["look"] == 0),
                "age at z=0 matches the integral": np.abs(o["age0"] - ax) <= np.abs(at - ax) * (1 + 1e-6) + 2e-9 * ax,
                "age = age0 - lookback": np.abs(o["age"] - (o["age0"] - o["look"])) <= 1e-12 * o["age0"],
                "age positive": o["age"] > 0,
                "critical density": np.abs(o["rho"] - 277.536627 * c["h"] ** 2 * E ** 2) <= 1e-11 * o["rho"],
                "virial dynamical time": np.abs(o["tdyn"] - 2 ** 1.5 * th / E / np.sqrt(R.bryan_norman(Omz - 1))) <= 1e-10 * o["tdyn"]}

    def single(g):
        k = (g.cosmo[0], g.cosmo[1], g.cosmo[2], g.h)
        z = float(g.z)
        return {"look": fw.lookback_to_z(z, *k), "age0": fw.age_at_z0(*k), "age": np.asarray(fw.age_at_z(z, *k))[0], "rho": fw.rho_crit(z, *k),
                "tdyn": fw.virial_dynamical_time(z, *k)}
    ctx.vproduct("relations", dict(h=np.array(h), cosmo=cp, z=zs[order]), impl, None, inv=inv, single=single, dev=1)

    def per_cosmo(c):
        zz = np.sort(zs)
        a = (c.Om0, c.w0, c.wa, c.h)
        look, age = np.asarray(fw.lookback_time(zz, *a)), np.asarray(fw.age_at_z(zz, *a))
        rho, td = np.asarray(fw.rho_crit(zz, *a)), np.asarray(fw.virial_dynamical_time(zz, *a))
        p = []
        for n, x in (("lookback", look), ("age", age), ("rho_crit", rho), ("t_dyn", td)):
            if x.shape != zz.shape:
                return "%s shape %s" % (n, x.shape)
        # strict, except between redshifts whose true times differ by less than double rounding
        dt = np.diff(zz) * R.hubble_time_gyr(c.h) / ((1 + zz[1:]) * R.Ez(zz[1:], *a[:3]))
        eps = 1e-13 * age[0]
        if np.any(np.diff(look) < -eps) or np.any((np.diff(look) <= 0) & (dt > eps)):
            p.append("lookback not increasing")
        if np.any(np.diff(age) > eps) or np.any((np.diff(age) >= 0) & (dt > eps)) or age.min() <= 0:
            p.append("age not decreasing or not positive")
        b = a[:3] + (2 * c.h,)
        p.append(bad_close(fw.lookback_time(zz, *b), look / 2, 1e-11))
        p.append(bad_close(fw.age_at_z(zz, *b), age / 2, 1e-10))
        p.append(bad_close(fw.age_at_z0(*b), float(fw.age_at_z0(*a)) / 2, 1e-11))
        p.append(bad_close(fw.virial_dynamical_time(zz, *b), td / 2, 1e-11))
        p.append(bad_close(fw.rho_crit(zz, *b), 4 * rho, 1e-11))
        p.append(bad_close(age[0], fw.age_at_z0(*a), 1e-12))
        for k in (0, 1, len(zz) // 2, len(zz) - 1):
            z = float(zz[k])
            p.append(bad_close(fw.lookback_to_z(z, *a), look[k], 1e-12, 1e-14))
            p.append(bad_close(np.asarray(fw.age_at_z(z, *a)), age[k:k + 1], 1e-12))
            p.append(bad_close(fw.rho_crit(z, *a), rho[k], 1e-12))
            p.append(bad_close(fw.virial_dynamical_time(z, *a), td[k], 1e-12))
        ctx.outcome(age, td)
        return p
    ctx.product("per_cosmology", dict(Om0=Om, w0=w0, wa=wa, h=h), per_cosmo)

    def lens(c):
        z = np.linspace(0.1, 5.0, c.n) if c.n > 1 else np.array([0.7])
        a = (0.3, -0.9, 0.1, 0.7)
        p = []
        for f in (fw.age_at_z, fw.rho_crit, fw.virial_dynamical_time):
            x = np.asarray(f(z, *a))
            y = np.array([float(np.asarray(f(q, *a)).reshape(())) for q in z])
            p.append(bad_close(x, y, 1e-12))
        p.append(bad_close(fw.lookback_time(z, *a), np.array([float(fw.lookback_to_z(q, *a)) for q in z]), 1e-12))
        ctx.outcome(x)
        return p
    ctx.product("array_lengths", dict(n=[1, 2, 3, 4, 5, 256, 511, 512, 513]), lens)

    # far beyond the galaxies: the coarse redshift mesh limits the accuracy of the times, the order and the definitions stay
    far = np.array([5.0, 10.0, 15.0, 20.0, 25.0, 30.0, 40.0, 45.0, 50.0, 55.0, 60.0, 75.0, 100.0, 150.0, 200.0, 400.0, 700.0, 1000.0, 1100.0])

    def distant(c):
        a = (c.Om0, c.w0, c.wa, c.h)
        look, age = np.asarray(fw.lookback_time(far, *a)), np.asarray(fw.age_at_z(far, *a))
        th = R.hubble_time_gyr(c.h)
        e = np.array([integ(a[:3], float(q)) for q in far]) * th
        E = np.array([R.Ez(q, *a[:3]) for q in far])
        Omz = c.Om0 * (1 + far) ** 3 / E ** 2
        p = []
        if np.any(np.diff(look) <= 0):
            p.append("lookback not increasing at %s" % far[1:][np.diff(look) <= 0])
        if np.any(np.abs(look - e[:, 0]) > 1.5 * np.abs(e[:, 1] - e[:, 0]) + 1e-7 * e[:, 0]):
            p.append("lookback off")
        p += [bad_close(np.array([float(fw.lookback_to_z(float(q), *a)) for q in far]), look, 1e-12), bad_close(look + age, np.full(len(far), float(fw.age_at_z0(*a))), 1e-12),
              bad_close(fw.rho_crit(far, *a), 277.536627 * c.h ** 2 * E ** 2, 1e-11),
              bad_close(fw.virial_dynamical_time(far, *a), 2 ** 1.5 * th / E / np.sqrt(R.bryan_norman(Omz - 1)), 1e-10)]
        ctx.outcome(look)
        return p
    ctx.product("distant", dict(Om0=Om if ctx.thorough else Om[::2], w0=w0[::2], wa=wa, h=h[:2]), distant)

    def named(c):
        d = C.DEFAULT_COSMOLOGY
        p = [bad_close(np.array(d, float), np.array([0.3075, -1.0, 0.0, 0.6774]), 0, 0),
             bad_close(float(C.TODAY), float(fw.age_at_z0(*d)), 1e-6)]
        k = getattr(fw, c.name)
        ref = {"PLANCK15": 13.7976, "WMAP5": 13.6818, "FSPS_COSMO": 13.4706}
        ex = age0(np.array(k[:3]))[0] * R.hubble_time_gyr(k.h)
        p.append(bad_close(fw.age_at_z0(*k), ex, 2e-4))
        return p
    ctx.product("named", dict(name=["PLANCK15", "WMAP5", "FSPS_COSMO"]), named)
