"""Stand-in for python-fsps: a deterministic, fully recorded model with fault injection.

Configured by the JSON in $MC_FSPS (or CFG set in-process); every call of the model is one
numbered event, and event number `fail_at` raises."""
import json
import os

import numpy as np

CFG = json.loads(os.environ.get("MC_FSPS", "{}"))
LOG = []          # [kind, zmet, kwargs]
N = [0]
EXC = {"RuntimeError": RuntimeError, "OSError": OSError, "ValueError": ValueError, "MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt,
       "AssertionError": AssertionError}


def reset(**cfg):
    CFG.clear()
    CFG.update(cfg)
    LOG.clear()
    N[0] = 0


def event(kind, zmet, kw):
    N[0] += 1
    LOG.append((kind, zmet, dict(kw)))
    if CFG.get("fail_at") == N[0]:
        raise EXC[CFG.get("exc", "RuntimeError")]("injected fault in %s" % kind)


def grid():
    nm, na, nw = CFG.get("nm", 3), CFG.get("na", 4), CFG.get("nw", 5)
    z = 0.0142 * 10 ** np.linspace(-2, 0.5, nm)
    a, w = 5.0 + 0.25 * np.arange(na) + 0.01 * np.arange(na) ** 2, np.linspace(91.0, 10000.0, nw)
    pick = lambda x, k: x[np.array(CFG[k])] if CFG.get(k) is not None else x      # a model whose grids are in another order
    return pick(z, "z_order"), pick(a, "age_order"), pick(w, "wave_order")


def neb(kw):
    return 1.0 + 0.5 * bool(kw.get("add_neb_emission", False)) + 0.01 * kw.get("gas_logz", 0.25) + 0.001 * kw.get("gas_logu", 0.75) + 0.1 * kw.get("imf_type", 0)


def spectrum(zmet, kw):
    _, a, w = grid()
    return neb(kw) * zmet * np.outer(1.0 / a, 1 + np.sin(w * zmet / 3000.0) ** 2)


def lines(zmet, kw):
    _, a, _ = grid()
    lw = np.array(CFG["lines"])
    return neb(kw) * zmet * 1e-3 * np.outer(a, 1 + np.arange(len(lw)) ** 1.5)


class StellarPopulation:
    def __init__(self, compute_vega_mags=False, vactoair_flag=False, zcontinuous=0, **kw):
        self.kw = kw
        self.zc = zcontinuous
        self.zmet = kw.get("zmet", 1)
        event("init", kw.get("zmet"), dict(kw, zcontinuous=zcontinuous))

    @property
    def zlegend(self):
        event("zlegend", None, {})
        return grid()[0]

    @property
    def log_age(self):
        event("log_age", None, {})
        return grid()[1]

    @property
    def ssp_ages(self):
        event("log_age", None, {})
        return grid()[1]

    @property
    def wavelengths(self):
        event("wavelengths", None, {})
        return grid()[2]

    def get_spectrum(self, zmet=None, tage=0.0, peraa=False):
        z = self.zmet if zmet is None else zmet
        event("spectrum", z, {k: v for k, v in self.kw.items() if k != "zmet"})
        f = spectrum(z, self.kw)
        if tage > 0:
            f = f[np.argmin(abs(10 ** (grid()[1] - 9) - tage))]
        return grid()[2], f * 2.0 if peraa else f

    def __getattr__(self, name):
        if name in ("emline_luminosity", "emline_wavelengths") and CFG.get("lines") is not None:
            event(name, self.zmet, {})
            return lines(self.zmet, self.kw) if name == "emline_luminosity" else np.array(CFG["lines"])
        raise AttributeError(name)
