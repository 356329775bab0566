"""The MZR comparison figure shows the models it was given."""
import os
import tempfile
from pathlib import Path
import numpy as np
from mc.engine import bad_close
from mc.checks.c14 import t0, evol

DATA = {"maiolino_etal18_mzr.dat": "maiolino", "kirby_etal13_mzr.dat": "kirby", "galazzi_etal05_mzr.dat": "gallazzi"}
DRN = os.environ.get("MC_REPO", "/repo") + "/dsps/metallicity/tests/testing_data"


def run(ctx):
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    from matplotlib.colors import to_rgba
    from dsps.metallicity import umzr
    from dsps.metallicity.diagnostics.plot_mzr import make_mzr_comparison_plot as plot
    D = umzr.DEFAULT_MZR_PARAMS
    T5 = np.linspace(2, 14, 5)
    solar = np.log10(0.012)

    def model(x, t, P):
        q = list(map(float, P))
        return t0(x, q[0], 10.5, q[1], q[2], q[3], q[4]) + evol(x, t, q[5], q[6], 8.44, q[7], q[8])

    def alt(i, d):
        q = list(map(float, D))
        q[i] += d
        return umzr.MZRParams(*q)
    PS = {"p%d" % i: alt(i, d) for i, d in enumerate([0.15, 0.1, 0.2, 0.05, -0.1, 0.1, 0.1, -0.05, -0.1])}
    PS = {"default": D, **PS, "tuple": tuple(alt(0, -0.3)), "other": umzr.MZRParams(*[a + 0.03 for a in alt(3, 0.1)])}
    tmp = tempfile.mkdtemp(dir=os.environ["MC_SCRATCH"])
    n = [0]

    def style(l):
        return l.get_linestyle()

    def fig(c):
        P, P2 = PS[c.params], None if c.params2 is None else PS[c.params2]
        kw = {}
        if P2 is not None:
            kw["params2"] = P2
        lab1, lab2 = c.labels if c.labels else (r"${\rm new\ model}$", r"${\rm default\ model}$")
        if c.labels:
            kw.update(label1=lab1, label2=lab2)
        fn = None
        n[0] += 1
        if c.fname:
            fn = os.path.join(tmp, "f%d.%s" % (n[0], c.fname.split()[0]))
            if "over" in c.fname:
                with open(fn, "w") as h:
                    h.write("an older file" * 300)
            kw["fname"] = os.path.relpath(fn) if "relative" in c.fname else Path(fn) if "Path" in c.fname else fn
        before = set(os.listdir(tmp)), set(plt.get_fignums()), {k: repr(v) for k, v in matplotlib.rcParams.items()}, tuple(map(float, P)), tuple(map(float, umzr.DEFAULT_MZR_PARAMS))
        f = plot(P, **kw)
        p = []
        try:
            new = {os.path.basename(fn)} if fn and "over" not in c.fname else set()
            if set(os.listdir(tmp)) - before[0] != new:
                p.append("files written: %s" % (set(os.listdir(tmp)) - before[0]))
            if fn and os.path.getsize(fn) < 1000:
                p.append("empty figure file")
            if fn:
                with open(fn, "rb") as h:
                    if h.read(4) != (b"%PDF" if ".pdf" in fn else b"\x89PNG"):
                        p.append("the file does not hold the figure")
            if {k: repr(v) for k, v in matplotlib.rcParams.items()} != before[2]:
                p.append("rcParams changed")
            if tuple(map(float, P)) != before[3] or tuple(map(float, umzr.DEFAULT_MZR_PARAMS)) != before[4]:
                p.append("parameters modified")
            if len(f.axes) != 1:
                return "axes"
            ax = f.axes[0]
            lines = ax.get_lines()
            Q2 = D if P2 is None else P2
            col = {}
            used = set()
            for st, Q in (("-", P), ("--", Q2)):
                for t in T5:
                    hit = [k for k, l in enumerate(lines) if k not in used and style(l) == st and len(l.get_xdata()) >= 100
                           and not bad_close(np.asarray(l.get_ydata()), model(np.asarray(l.get_xdata(), float), t, Q), 1e-10, 1e-10)]
                    if not hit:
                        p.append("no %r curve of the %s model at t=%g" % (st, "first" if st == "-" else "second", t))
                        continue
                    k = hit[0]
                    used.add(k)
                    x = np.asarray(lines[k].get_xdata())
                    lo, hi = ax.get_xlim()
                    if x.min() > lo or x.max() < hi or np.any(np.diff(x) <= 0):
                        p.append("curve does not span the axis")
                    col.setdefault(t, []).append(to_rgba(lines[k].get_color()))
            if any(len(set(v)) != 1 for v in col.values()) or len({v[0] for v in col.values()}) != len(col):
                p.append("colours do not identify the times")
            elif len(col) == 5:
                rgb = [col[t][0] for t in T5]
                if not all(a[0] - a[2] > b[0] - b[2] for a, b in zip(rgb, rgb[1:])) or not rgb[0][0] > rgb[0][2] or not rgb[-1][2] > rgb[-1][0]:
                    p.append("colour order is not red (early) to blue (late)")
            (xl, xh), (yl, yh) = ax.get_xlim(), ax.get_ylim()
            if not (xl < xh and yl < yh):
                p.append("an axis is inverted")
            pts = {}
            for k, l in enumerate(lines):
                if k in used:
                    continue
                pts[k] = l
            for nm, who in DATA.items():
                d = np.loadtxt(os.path.join(DRN, nm), delimiter=",")
                d = {(round(a, 9), round(b + solar, 9)) for a, b in d}
                hit = [k for k, l in pts.items() if 2 * len(l.get_xdata()) >= len(d) and
                       {(round(float(a), 9), round(float(b), 9)) for a, b in zip(l.get_xdata(), l.get_ydata())} <= d]
                if not hit:
                    p.append("data set %s not shown" % nm)
                    continue
                l = pts.pop(hit[0])
                leg = [(h, s) for h, s in legend(ax) if who in s.lower()]
                xy = np.array([l.get_xdata(), l.get_ydata()], float)
                vis = (xy[0] >= xl) & (xy[0] <= xh) & (xy[1] >= yl) & (xy[1] <= yh)
                if vis.mean() < 0.5:
                    p.append("data set %s lies outside the axes" % nm)
                if style(l) not in ("None", "", " "):
                    p.append("the points of %s are joined by a line" % nm)
                if len(leg) != 1 or leg[0][0].get_marker() != l.get_marker() or to_rgba(leg[0][0].get_color()) != to_rgba(l.get_color()):
                    p.append("legend entry of %s does not match its symbols" % nm)
            if pts:
                p.append("%d unexpected curves" % len(pts))
            L = [(style(h), s, to_rgba(h.get_color())) for h, s in legend(ax)]
            for st, lb in (("-", lab1), ("--", lab2)):
                g = [x for x in L if x[1] == lb]
                if len(g) != 1 or g[0][0] != st:
                    p.append("legend shows %r with line style %s, it is drawn %r" % (lb, [x[0] for x in g], st))
            for s, t in ((r"z=3", T5[0]), (r"z=0", T5[-1])):
                g = [x for x in L if s in x[1] and x[0] == "-"]
                if len(g) != 1 or (t in col and g[0][2] != col[t][0]):
                    p.append("legend colour of %s is not the colour of its curve" % s)
            ctx.outcome([np.asarray(l.get_ydata())[::100] for l in lines if len(l.get_ydata()) >= 100])
        finally:
            plt.close(f)
        if set(plt.get_fignums()) - before[1]:
            p.append("figures left open besides the returned one")
        return p

    def legend(ax):
        from matplotlib.legend import Legend
        out = []
        for lg in [a for a in ax.get_children() if isinstance(a, Legend)]:
            out += [(h, t.get_text()) for h, t in zip(lg.legend_handles, lg.get_texts())]
        return out
    names = list(PS)
    ctx.product("figures", dict(params=names, params2=[None] + (names if ctx.thorough else names[1:4] + ["other", "tuple"]), labels=[("default", None), ("custom", ("mine", "yours"))],
                                fname=[None, "png", "png over", "png relative", "png Path", "pdf"]), fig,
                dom=lambda c: not c.fname or c.params in (("default", "p0", "p3", "tuple") if ctx.thorough else ("p0",)) and (c.fname == "png" or c.params2 in (None, "p3")))
