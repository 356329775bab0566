"""Worker of Ctx.farm: executes the cases of its groups and prints one JSON line per case."""
import fcntl
import hashlib
import importlib
import json
import os
import sys
import time

import numpy as np


def digest(outs):
    h = hashlib.md5()
    for x in outs or ():
        try:
            with np.errstate(all="ignore"):
                h.update(np.array2string(np.round(np.asarray(x, dtype=float).ravel()[:64], 9)).encode())
        except Exception:
            h.update(str(x).encode())
    return h.hexdigest()[:12]


def execute(thunk):
    from mc.engine import Skip, _short_tb
    try:
        r = thunk()
    except Skip:
        return dict(skip=1)
    except Exception as e:
        return dict(r="exception %s: %s\n%s" % (type(e).__name__, str(e)[:1500], _short_tb()))
    prob, outs, n, pts = (r + (1, 0))[:4] if isinstance(r, tuple) and len(r) == 2 else r if isinstance(r, tuple) else (r, (), 1, 0)
    return dict(r=prob or None, o=digest(outs), n=n, pts=pts)


def main():
    pid, tier, i, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    cpus = sorted(os.sched_getaffinity(0))
    if len(cpus) >= n:          # one core per worker: XLA sizes its thread pools accordingly
        os.sched_setaffinity(0, {cpus[i]})
    mod = importlib.import_module("mc.checks." + pid.lower())
    cs = mod.cases(tier)
    clear = not getattr(mod, "NOCLEAR", False)
    if clear or getattr(mod, "PREJAX", False):
        import jax
    groups = list(dict.fromkeys(c[2] for c in cs))
    queue = os.path.join(os.environ["MC_SCRATCH"], "farm.queue")

    def take():
        """next group that no worker has taken"""
        with open(queue, "r+") as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            k = int(f.read() or 0)
            f.seek(0)
            f.write(str(k + 1))
            f.flush()
        return k
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    by = {g: [] for g in groups}
    for k, c in enumerate(cs):
        by[c[2]].append((k, c))
    while True:
        g = take()
        if g >= len(groups):
            break
        for cnt, (k, c) in enumerate(by[groups[g]]):
            if clear and cnt % 150 == 0:
                jax.clear_caches()
            t0 = time.time()
            d = execute(c[3])
            d["k"] = k
            d["t"] = round(time.time() - t0, 2)
            out.write(json.dumps(d) + "\n")
            out.flush()
    out.write('{"end": 1}\n')
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
