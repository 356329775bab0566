import numpy as np
from mc.engine import bad_close, opt, Skip
import mc.refs as R


def grid(kind, n):
    if kind == "lin":
        return 5000.0 + 2.0 * np.arange(n)
    if kind == "log":
        return 4800.0 * np.exp(np.arange(n) * 5e-4)
    return 5000.0 + np.cumsum(1.0 + 0.9 * np.sin(1.7 * np.arange(n)) ** 2) * 2


def ref_ew(w, f, lo, mid, hi, a, b, c, d):
    m = ((w >= a) & (w <= b)) | ((w >= c) & (w <= d))
    x0, s = w[m].mean(), max(np.ptp(w[m]) / 2, 1.0)
    u = (w - x0) / s
    V = np.vander(u[m], 3)
    q = np.linalg.lstsq(V, f[m], rcond=None)[0]
    cont = np.polyval(q, u)
    k = (w >= lo) & (w <= hi)
    ig = np.where(k, f - cont, 0.0)
    flux = R.trapz_v(w, ig)
    cm = np.polyval(q, (mid - x0) / s)
    # raw-power coefficients for the decomposition variant
    c2 = q[0] / s**2
    c1 = q[1] / s - 2 * q[0] * x0 / s**2
    c0 = q[2] - q[1] * x0 / s + q[0] * x0**2 / s**2
    scale = np.abs(R.trapz_v(w, np.where(k, np.abs(f) + np.abs(cont), 0.0)))
    return flux / cm, flux, cm, cont, scale, m.sum()


def run(ctx):
    ew = opt("dsps.em_lines.equivalent_width", "_ew_kernel")
    dec = opt("dsps.em_lines.equivalent_width", "_continuum_line_decomp_kern")
    if ew is None or dec is None:
        ctx.skip("all", "kernels renamed")
        return

    def conts(w):
        u = (w - 5050.0) / 100.0
        return {"const": np.full_like(w, 3.0), "linear": 3.0 + 0.5 * u, "quad": 3.0 + 0.5 * u + 0.4 * u**2, "falling": 1e-3 * (4.0 - 0.8 * u + 0.1 * u * u),
                "big": 1e6 * (2 + 0.1 * u)}

    def lines(w, mid):
        g = np.exp(-0.5 * ((w - mid) / 6.0) ** 2)
        return {"none": 0 * w, "emission": 2.0 * g, "absorption": -0.6 * g, "pixel": np.where(np.arange(len(w)) == np.argmin(abs(w - mid)), 5.0, 0.0),
                "saw": 0.3 * ((np.arange(len(w)) % 3) - 1.0), "broad": 1.0 * np.exp(-0.5 * ((w - mid) / 40.0) ** 2)}

    # window placements in fractional pixel indices: integer = exactly on a pixel, .5 = between
    PL = {
        "on_pixels": (18, 20, 22, 4, 14, 26, 36), "between": (17.5, 20.2, 22.5, 3.5, 13.5, 26.5, 36.5),
        "asymmetric": (15, 17, 24, 2, 5, 30, 38), "touching": (14, 20, 26, 4, 14, 26, 36), "overlap": (10, 20, 30, 4, 14, 26, 36),
        "one_pixel_line": (20, 20, 20, 4, 14, 26, 36), "edge_of_grid": (18, 20, 22, 0, 8, 32, 39), "beyond_grid": (18, 20, 22, -5, 8, 32, 60),
        "narrow_cont": (18, 20, 22, 12, 13, 27, 28), "one_sided": (18, 20, 22, 26, 30, 32, 38), "three_points": (18, 20, 22, 10, 11, 30, 30),
        "continua_touch": (18, 20, 22, 4, 20, 20, 36), "continua_overlap": (18, 20, 22, 4, 25, 15, 36), "continua_equal": (18, 20, 22, 6, 34, 6, 34), "continua_nested": (18, 20, 22, 4, 36, 15, 25),
        "swapped_sides": (18, 20, 22, 26, 36, 4, 14), "line_outside": (28, 30, 33, 4, 12, 14, 22), "centre_right": (18, 25, 22, 4, 14, 26, 36), "centre_left": (18, 15.5, 22, 4, 14, 26, 36),
        "just_inside": (17.9999, 20, 22.0001, 3.9999, 14.0001, 25.9999, 36.0001), "just_outside": (18.0001, 20, 21.9999, 4.0001, 13.9999, 26.0001, 35.9999),
        "ulp_outside": (18 + 1e-10, 20, 22 - 1e-10, 4 + 1e-10, 14 - 1e-10, 26 + 1e-10, 36 - 1e-10),
    }

    def at(w, i):
        if i < 0:
            return w[0] + i * (w[1] - w[0])
        if i > len(w) - 1:
            return w[-1] + (i - len(w) + 1) * (w[-1] - w[-2])
        k = int(np.floor(i))
        return w[k] if i == k else w[k] + (i - k) * (w[k + 1] - w[k])

    def one(c):
        w = grid(c.grid, c.n)
        P = [at(w, i) for i in PL[c.place]]
        cont = conts(w)[c.cont]
        amp = {"big": 1e6, "falling": 1e-3}.get(c.cont, 1.0)
        f = cont + amp * lines(w, P[1])[c.line]
        E, F, cm, ct, sc, nfit = ref_ew(w, f, *P)
        g = ew(w, f, *P)
        d = dec(w, f, *P)
        ctx.outcome(np.round(np.asarray(g), 6))
        rt = 3e-6
        p = [bad_close(g[1], F, 0, rt * sc), bad_close(g[0], E, rt, rt * abs(sc / cm)), bad_close(d[0], g[0], 1e-9, 1e-12 * abs(sc / cm)),
             bad_close(d[1], g[1], 1e-9, 1e-9 * sc), bad_close(d[2], cm, rt, rt * np.abs(f).max())]
        cc = np.asarray(d[3])
        p.append(bad_close(np.polyval(cc, w), ct, 1e-4, 1e-4 * np.abs(f).max()))
        k = (w >= P[3]) & (w <= P[6])
        p.append(bad_close(np.polyval(cc, w[k]), ct[k], rt, rt * np.abs(f).max()))
        if c.line == "none":
            p.append(bad_close(g[1], 0.0, 0, rt * sc))
            p.append(bad_close(d[2], cont[0] * 0 + np.interp(P[1], w, cont), 1e-4))
        # scale invariance and linearity
        g7 = ew(w, 7.0 * f, *P)
        p.append(bad_close(g7[0], g[0], 1e-6, rt * abs(sc / cm)))
        p.append(bad_close(g7[1], 7 * np.asarray(g[1]), 1e-6, 7 * rt * sc))
        for k in (1e-40, 1e-12, 1e20, -1.0, -1e-33):
            x, y = ew(w, k * f, *P), dec(w, k * f, *P)
            p += [bad_close(x[0], g[0], 1e-6, rt * abs(sc / cm)), bad_close(np.asarray(x[1]) / k, g[1], 1e-6, rt * sc),
                  bad_close(y[0], g[0], 1e-6, rt * abs(sc / cm)), bad_close(np.asarray(y[1]) / k, g[1], 1e-6, rt * sc),
                  bad_close(np.asarray(y[2]) / k, cm, rt, rt * np.abs(f).max())]
        # pixels outside every window are irrelevant
        used = ((w >= P[3]) & (w <= P[4])) | ((w >= P[5]) & (w <= P[6])) | ((w >= P[0]) & (w <= P[2]))
        f2 = np.where(used, f, f + 50.0 * amp * (1 + np.arange(len(w)) % 2))
        p.append(bad_close(np.asarray(ew(w, f2, *P)[1]), g[1], 1e-9, 1e-9 * sc))
        return p

    sizes = [40, 41, 200] if not ctx.thorough else [40, 41, 64, 200, 333, 1000]
    ctx.product("windows", dict(n=sizes, grid=["lin", "log", "uneven"], place=list(PL), cont=["const", "linear", "quad", "falling", "big"],
                                line=["none", "emission", "absorption", "pixel", "saw", "broad"]), one)

    # every placement of the line window edges on the pixel lattice (closed at both ends), half-pixel resolution
    w = grid("lin", 40)
    cont = conts(w)["linear"]
    f = cont + lines(w, w[20])["saw"] + lines(w, w[20])["emission"]
    step = 0.5

    def lat(c):
        if c.hi < c.lo:
            raise Skip
        P = [at(w, c.lo), at(w, 20), at(w, c.hi), at(w, 2), at(w, 9), at(w, 31), at(w, 38)]
        E, F, cm, ct, sc, _ = ref_ew(w, f, *P)
        g = ew(w, f, *P)
        ctx.outcome(np.round(np.asarray(g), 6))
        return [bad_close(g[1], F, 1e-6, 1e-6 * sc), bad_close(g[0], E, 1e-6, 1e-6 * sc)]
    r = list(np.arange(12, 28.1, step)) + [k + d for k in ([15, 20, 25] if not ctx.thorough else range(12, 29)) for d in (-1e-3, 1e-3, -1e-8, 1e-8)]
    ctx.product("line_window_lattice", dict(lo=r, hi=r), lat)

    # every placement of the continuum edges on the lattice
    def latc(c):
        if c.b < c.a or c.d < c.c or (c.b - c.a) + (c.d - c.c) < 3:
            raise Skip
        P = [at(w, 17), at(w, 20), at(w, 23), at(w, c.a), at(w, c.b), at(w, c.c), at(w, c.d)]
        E, F, cm, ct, sc, n = ref_ew(w, f, *P)
        if n < 4:
            raise Skip
        d = dec(w, f, *P)
        ctx.outcome(np.round(float(d[1]), 6))
        return [bad_close(d[1], F, 1e-5, 1e-5 * sc), bad_close(d[2], cm, 1e-5), bad_close(d[0], E, 1e-5, 1e-5 * sc)]
    aa = [2, 4, 4.5, 7, 8, 10, 4 - 1e-7, 4 + 1e-7]
    ctx.product("continuum_window_lattice", dict(a=aa, b=[12, 12.5, 14, 8, 26, 33, 14 + 1e-7, 14 - 1e-7], c=[26, 26.5, 30, 12, 5], d=[36, 36.5, 39, 31]), latc)

    # the same physics at every wavelength and pixel scale: the window pattern moves rigidly from the ultraviolet to the radio and
    # from fine to coarse pixels (tolerance follows the conditioning of a quadratic in raw wavelength, eps / (half-span / centre)^2)
    def where(c):
        w = c.w0 * (1 + c.dl * (np.arange(40) - 19.5))
        P = [at(w, i) for i in PL[c.place]]
        u = (np.arange(40) - 19.5) / 20.0
        cont = {"const": 3.0 + 0 * u, "linear": 3.0 + 0.5 * u, "quad": 3.0 + 0.5 * u + 0.8 * u * u}[c.cont]
        f = cont + {"none": 0 * u, "emission": 2.0 * np.exp(-0.5 * ((np.arange(40) - 20) / 1.5) ** 2), "saw": 0.3 * ((np.arange(40) % 3) - 1.0)}[c.line]
        E, F, cm, ct, sc, n = ref_ew(w / c.w0, f, *[p / c.w0 for p in P])
        x0, hs = w.mean(), np.ptp(w) / 2
        rt = 3e-6 + 2e-14 / (hs / x0) ** 2
        g, d = ew(w, f, *P), dec(w, f, *P)
        ctx.outcome(np.round(np.asarray(g) / c.w0, 9))
        return [bad_close(np.asarray(g[1]) / c.w0, F, 0, rt * sc), bad_close(np.asarray(g[0]) / c.w0, E, rt, rt * abs(sc / cm)),
                bad_close(np.asarray(d[1]) / c.w0, F, 0, rt * sc), bad_close(np.asarray(d[0]) / c.w0, E, rt, rt * abs(sc / cm)), bad_close(d[2], cm, rt)]
    ctx.product("anywhere", dict(w0=[1.0, 121.5, 1215.67, 2e4, 2.1e5, 1e8] if not ctx.thorough else [1e-3, 1.0, 30.0, 121.5, 912.0, 1215.67, 6563.0, 2e4, 1e5, 2.1e5, 1e7, 1e8],
                                 dl=[1e-2, 1e-3, 1e-4, 2e-5, 4e-6] if not ctx.thorough else [1e-2, 3e-3, 1e-3, 3e-4, 1e-4, 5e-5, 2e-5, 1e-5, 4e-6],
                                 place=["on_pixels", "between", "asymmetric", "continua_nested", "one_sided"], cont=["const", "linear", "quad"], line=["none", "emission", "saw"]), where)
