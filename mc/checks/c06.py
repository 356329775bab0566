import numpy as np
import jax
from mc.engine import bad_close, Skip, opt
import mc.refs as R

COSMOS = np.array([[0.3075, -1.0, 0.0, 0.6774], [0.27, -1.0, 0.0, 0.72], [0.4, -0.8, 0.2, 0.5]])


def run(ctx):
    from dsps.photometry import calc_obs_mag, calc_rest_mag
    from dsps.cosmology.flat_wcdm import distance_modulus_to_z as dm
    rest_flux = opt("dsps.photometry.photometry_kernels", "calc_rest_flux")
    nodim = opt("dsps.photometry.photometry_kernels", "_calc_obs_mag_no_dimming")

    waves = np.array([[1000., 2000., 3000., 4000., 5000.], [900., 2500., 2500.5, 4800., 9000.], [2400., 2500., 2600., 2700., 2800.]])
    lums = [1.0, 0.0, 50.0]
    L = np.array(np.meshgrid(*[lums] * 5, indexing="ij")).reshape(5, -1).T
    filts = np.array([[2500., 2600., 2700., 2800.],       # inside, on nodes of the third SED
                      [1000., 2000., 3000., 5000.],       # on SED nodes, full range
                      [500., 1500., 4500., 20000.],       # wider than the SED
                      [4000., 5000., 6000., 7000.],       # partial overlap
                      [6000., 7000., 8000., 9500.],       # mostly outside
                      [2500., 2500.1, 4000., 4000.01]])   # uneven
    trans = np.array([[0.5, 1.0, 1.0, 0.5], [0.0, 1.0, 0.2, 0.0], [1.0, 1.0, 1.0, 1.0], [0.3, 0.0, 0.0, 1e-6]])
    zs = np.array([0.5, 0.0, 1e-4, 1.0, 0.25, 3.0, 9.0])
    vr = jax.jit(jax.vmap(calc_rest_mag))
    vo = jax.jit(jax.vmap(lambda w, l, f, t, z: calc_obs_mag(w, l, f, t, z, *COSMOS[0])))
    vdm = jax.jit(jax.vmap(lambda z: dm(z, *COSMOS[0])))
    vf = jax.jit(jax.vmap(rest_flux)) if rest_flux else None
    vn = jax.jit(jax.vmap(nodim)) if nodim else None

    # 1. rest magnitudes: every SED of 5 nodes over a 3-letter alphabet x filters
    def impl(c):
        a = (c["wave"], c["lum"], c["fw"], c["ft"])
        o = {"mag": vr(*a)}
        if vf:
            o["flux"] = vf(*a)
        return o

    def ref(c):
        r = np.array([R.band_ratio(*x) for x in zip(c["wave"], c["lum"], c["fw"], c["ft"])])
        return {"mag": R.mag(r), "flux": r}

    ctx.vproduct("rest", dict(wave=waves, fw=filts, ft=trans, lum=L), impl, ref, rtol=1e-10, atol=1e-10,
                 single=lambda g: {"mag": calc_rest_mag(g.wave, g.lum, g.fw, g.ft)})

    # 2. observed magnitudes
    def impl2(c):
        a = (c["wave"], c["lum"], c["fw"], c["ft"], c["z"])
        o = {"mag": vo(*a)}
        if vn:
            o["nodim"] = vn(*a)
        return o

    def ref2(c):
        r = R.mag(np.array([R.band_ratio(*x) for x in zip(c["wave"], c["lum"], c["fw"], c["ft"], c["z"])]))
        d = np.asarray(vdm(c["z"]))
        with np.errstate(invalid="ignore"):
            return {"nodim": r, "mag": r + d - 2.5 * np.log10(1 + c["z"])}
    ctx.vproduct("observed", dict(z=zs, wave=waves, fw=filts, ft=trans[:2], lum=L[::3]), impl2, ref2, rtol=1e-10, atol=1e-10,
                 single=lambda g: {"mag": calc_obs_mag(g.wave, g.lum, g.fw, g.ft, g.z, *COSMOS[0])})

    # 3. un-batched: realistic sizes and all cosmologies, metamorphic identities
    def seds(n, kind):
        w = {"lin": np.linspace(100., 20000., n), "log": np.logspace(2, 5, n)}[kind]
        return w, {"flat": np.full(n, 1e-3), "plaw": (w / 5000.) ** -1.7, "lines": 1 + 100 * (np.arange(n) % 7 == 0),
                   "break": np.where(w < 912., 0.0, (w / 5000.) ** 0.5)}

    def flt(n, kind):
        if kind == "gauss":
            w = np.linspace(4000., 7000., n)
            return w, np.exp(-0.5 * ((w - 5500) / 500) ** 2)
        if kind == "top":
            w = np.linspace(3000., 3900., n)
            t = np.ones(n)
            t[0] = t[-1] = 0
            return w, t
        w = np.sort(np.concatenate([np.linspace(5000., 25000., n - 2), [5500.3, 5500.4]]))
        return w, 0.2 + 0.1 * np.cos(np.arange(n))

    def one(c):
        w, fam = seds(c.n_wave, c.grid)
        l = fam[c.sed]
        fw, ft = flt(c.n_filt, c.filt)
        r = R.band_ratio(w, l, fw, ft)
        m = float(calc_rest_mag(w, l, fw, ft))
        p = [bad_close(m, R.mag(r), 1e-10, 1e-9)]
        if rest_flux:
            p.append(bad_close(rest_flux(w, l, fw, ft), r, 1e-10))
        mo = float(calc_obs_mag(w, l, fw, ft, c.z, *COSMOS[0]))
        for k in (1e4, 1e-40, 1e-13, 1e30):
            p.append(bad_close(calc_rest_mag(w, l * k, fw, ft), m - 2.5 * np.log10(k), 0, 1e-8))
            p.append(bad_close(calc_obs_mag(w, l * k, fw, ft, c.z, *COSMOS[0]), mo - 2.5 * np.log10(k), 0, 1e-8))
        for k in (1e-3, 1e-30, 100.0):
            p.append(bad_close(calc_rest_mag(w, l, fw, ft * k), m, 0, 1e-8))
            p.append(bad_close(calc_obs_mag(w, l, fw, ft * k, c.z, *COSMOS[0]), mo, 0, 1e-8))
        l2 = (w / 1e4) ** 2
        q = 10 ** (-0.4 * m) + 10 ** (-0.4 * float(calc_rest_mag(w, l2, fw, ft)))
        p.append(bad_close(10 ** (-0.4 * float(calc_rest_mag(w, l + l2, fw, ft))), q, 1e-8))
        out = (w < fw[0]) | (w > fw[-1])
        inner = np.zeros_like(out)
        lo, hi = np.searchsorted(w, fw[0], "right") - 1, np.searchsorted(w, fw[-1])
        inner[max(lo, 0):hi + 1] = True
        l3 = np.where(inner, l, 1e5)
        p.append(bad_close(calc_rest_mag(w, l3, fw, ft), m, 0, 1e-9))
        for cosmo in COSMOS:
            r_z = R.mag(R.band_ratio(w, l, fw, ft, c.z))
            d = float(dm(c.z, *cosmo)) - 2.5 * np.log10(1 + c.z)
            got = calc_obs_mag(w, l, fw, ft, c.z, *cosmo)
            p.append(bad_close(got, r_z + d, 1e-10, 1e-9))
        if nodim:
            p.append(bad_close(nodim(w, l, fw, ft, 0.0), m, 0, 1e-10))
        ctx.outcome(m, got)
        return p
    ctx.product("realistic", dict(z=[0.5, 0.01, 2.0, 8.0], n_wave=[200, 1963, 6000] + ([20001] if ctx.thorough else []), grid=["lin", "log"],
                                  sed=["flat", "plaw", "lines", "break"], n_filt=[5, 101, 1906] + ([2, 50, 6001] if ctx.thorough else []),
                                  filt=["gauss", "top", "uneven"]), one)

    # 4. every filter length x SED length
    def sizes(c):
        w = np.linspace(1000., 9000., c.n_wave)
        l = 1.0 + np.arange(c.n_wave) % 3
        fw = np.linspace(2000., 8000., c.n_filt)
        ft = 0.1 + (np.arange(c.n_filt) % 2)
        p = [bad_close(calc_rest_mag(w, l, fw, ft), R.mag(R.band_ratio(w, l, fw, ft)), 1e-10, 1e-10),
             bad_close(calc_obs_mag(w, l, fw, ft, 0.3, *COSMOS[0]),
                       R.mag(R.band_ratio(w, l, fw, ft, 0.3)) + float(dm(0.3, *COSMOS[0])) - 2.5 * np.log10(1.3), 1e-10, 1e-10)]
        ctx.outcome(calc_rest_mag(w, l, fw, ft))
        return p
    h = 12 if ctx.thorough else 8
    ctx.product("all_sizes", dict(n_wave=range(2, h), n_filt=range(2, h)), sizes)

    # 5. the tabulated dimming term: distance modulus interpolated in redshift, minus 2.5 log10(1+z)
    tab = opt("dsps.photometry.photometry_kernels", "_cosmological_dimming_from_table")
    if tab:
        tables = {n: np.linspace(0.001, 3.0, n) ** 2 for n in (2, 3, 50)}

        def dim(c):
            zt = tables[c.n]
            mu = np.array([float(dm(x, *COSMOS[c.cosmo])) for x in zt]) if c.n < 10 else 40 + 5 * np.log10(zt)
            z = c.f * (zt[-1] - zt[0]) + zt[0]
            return [bad_close(tab(z, zt, mu), np.interp(z, zt, mu) - 2.5 * np.log10(1 + z), 1e-11),
                    bad_close(tab(zt, zt, mu), mu - 2.5 * np.log10(1 + zt), 1e-11)]
        ctx.product("dimming_table", dict(n=[2, 3, 50], cosmo=[0, 1, 2], f=[0.0, 1.0, 0.5, 0.013, 0.9]), dim)
