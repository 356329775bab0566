"""Every public call interrupted at every one of its source lines; afterwards every call gives what it gives in an undisturbed process."""
import gc
import importlib
import os
import signal
import sys
import numpy as np
from mc import ops as O
from mc import sched as S
from mc.checks.c20 import forked, load_all, same
from mc.checks.c24 import TINY, baseline, modules, observe
from mc.checks.c29 import HEAVY, NOJAX, RANDOM, SLOW, Call, cold, differ, kind, solo

NOCLEAR = PREJAX = True
EXC = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "value": ValueError, "os": OSError, "key": KeyError}

BOUNDS = {"first_call": "every data-handling call, the first of its process, x every line x KeyboardInterrupt or MemoryError raised there, followed by every data-handling call",
          "data": "every data-handling call x every line (visited up to twice) x exception raised there, followed by every data-handling call",
          "evaluated": "every numerical function x every line of its evaluation without compilation (quick: every fourth line of the eight composite functions) x exception raised there (quick: KeyboardInterrupt), followed by the same call and by other arguments",
          "tracing": "every numerical function interrupted at every line of its tracing (first two visits) one after the other, then called with the same and with other arguments",
          "importing": "every module as the first import, interrupted at every line one after the other until the import succeeds (thorough: each line also on its own), then every module and a set of calls",
          "twice": "pairs of lines: a data-handling call interrupted, another interrupted, then all (thorough: all pairs of calls; quick: calls of one kind)"}


def handles():
    import h5py
    def count():
        return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)
    n = count()
    if n > LEFT[0]:          # a file may wait for the collector; what stays after it stays for good
        gc.collect()
        n = LEFT[0] = count()
    return n


LEFT = [0]


def world():
    import jax
    return dict(cwd=os.getcwd(), env=dict(os.environ), files=handles(), err=np.geterr(), x64=jax.config.jax_enable_x64, trace=sys.gettrace(), path=list(sys.path),
                clean=jax.core.trace_state_clean() if hasattr(jax.core, "trace_state_clean") else True)


def changed(before):
    now = world()
    for k in before:
        if before[k] != now[k]:
            return "%s is %s afterwards, %s before" % (dict(files="the number of open HDF5 files", err="numpy's error state", cwd="the working directory", env="the environment", clean="JAX tracing").get(k, k), str(now[k])[:200], str(before[k])[:200])
    return None


class Late(BaseException):
    pass


def timed(c, seconds=120):
    """the call alone; one that never returns (a lock left held) counts as failing"""
    def ring(*a):
        raise Late("no result within %d s" % seconds)
    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return solo(c)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Run:
    def __init__(self, names):
        self.calls = {n: Call(n) for n in names}
        self.want = {n: solo(c) for n, c in self.calls.items()}
        self.n = self.pts = 0

    def cutat(self, name, k, exc, visits):
        """-> (reached, problem)"""
        f = self.calls[name].prepare()
        w = world()
        reached, r = S.cut(f, k, EXC[exc], visits)
        self.n += 1
        self.pts += k
        return reached, self.judge(name, r, exc, w)

    def judge(self, name, r, exc, w):
        d = changed(w)
        if d:
            return d
        if r[0] == "ok" and exc == "interrupt":      # a handler of ordinary exceptions may answer otherwise
            d = differ(r, self.want[name])
            return d and "the interrupted call returned, and " + d
        return None

    def after(self, names):
        for n in names:
            d = differ(timed(self.calls[n], 30 if n.startswith(NOJAX) else 120), self.want[n])
            if d:
                return "%s afterwards: %s" % (n, d)
        return None

    def outs(self):
        return [x for w in self.want.values() if w[0] == "ok" for x in w[1]]


def start(eager):
    import jax
    load_all()
    os.environ["DSPS_DRN"] = O.scratch_files()
    jax.config.update("jax_disable_jit", eager)
    return jax


def each(name, followers, excs, visits, eager, stride=1):
    def thunk():
        jax = start(eager)
        try:
            r = Run([name] + [f for f in followers if f != name])
            for exc in excs:
                k = 1
                while True:
                    reached, d = r.cutat(name, k, exc, visits)
                    if not reached and not d:
                        break
                    d = d or r.after(list(r.calls)[:1] if eager else list(r.calls))
                    if d:
                        return "%s with %s raised at line %d: %s" % (name, EXC[exc].__name__, k, d), r.outs(), r.n, r.pts
                    k += stride
            d = r.after(list(r.calls))
            if d:
                return "%s interrupted: %s" % (name, d), r.outs(), r.n, r.pts
            return None, r.outs(), r.n, r.pts
        finally:
            jax.config.update("jax_disable_jit", False)
    return thunk


def first_call(a, names, visits):
    def job(fresh):
        want = {c: fresh(lambda: solo(Call(c))) for c in names}
        outs = want[a][1] if want[a][0] == "ok" else ()
        n = 0
        for exc in ("interrupt", "memory"):
            k = 1
            while True:
                def broken():
                    f = Call(a).prepare()
                    w = world()
                    reached, r = S.cut(f, k, EXC[exc], visits)
                    d = changed(w)
                    if not d and r[0] == "ok" and exc == "interrupt":
                        d = differ(r, want[a])
                    for c in (a,) + tuple(x for x in names if x != a):
                        d = d or differ(solo(Call(c)), want[c])
                        if d:
                            return reached, "then %s: %s" % (c, d)
                    return reached, None
                r = fresh(broken)
                n += 1
                if r[0] == "crash" or r[1]:
                    return "%s (first call) with %s raised at line %d: %s" % (a, EXC[exc].__name__, k, r[1]), outs, n, n
                if not r[0]:
                    break
                k += 1
        return None, outs, n, n
    return lambda: cold(job)


def twice(a, b):
    def thunk():
        jax = start(False)
        r = Run([a, b])
        k = 1
        while True:
            reached, d = r.cutat(a, k, "interrupt", 1)
            if not reached:
                return None, r.outs(), r.n, r.pts
            j = 1
            while not d:
                if j > 1:
                    _, d = r.cutat(a, k, "interrupt", 1)
                reached, e = r.cutat(b, j, "interrupt", 1)
                d = d or e
                if not reached:
                    break
                d = d or r.after((b, a) if (j + k) % 2 else (a, b))
                j += 1
            if d:
                return "%s interrupted at line %d, %s at line %d: %s" % (a, k, b, j, d), r.outs(), r.n, r.pts
            k += 1
    return thunk


def tracing(name, followers):
    """in a process that has called nothing yet"""
    names = [name] + list(followers)

    def undisturbed():
        load_all()
        return ("ok", {n: solo(Call(n)) for n in names})

    def broken():
        load_all()
        r = Run(())
        r.calls = {n: Call(n) for n in names}
        r.want = want
        done = set()
        while True:
            f = r.calls[name].prepare()
            w = world()
            at, res = S.cut_next(f, done, KeyboardInterrupt, 2)
            r.n += 1
            r.pts += len(done)
            d = r.judge(name, res, "interrupt", w)
            if d:
                return ("ok", "%s interrupted while compiling at %s: %s" % (name, at and at[1:3], d), r.n, r.pts)
            if at is None:
                break
        d = r.after(names)
        return ("ok", d and "after %d interruptions while compiling: %s" % (r.n, d), r.n, r.pts)

    def thunk():
        nonlocal want
        b = forked(undisturbed)
        if b[0] != "ok":
            return b[1]
        want = b[1]
        r = forked(broken)
        if r[0] != "ok":
            return r[1]
        return r[1], [x for x in (want[name][1] if want[name][0] == "ok" else ())], r[2], r[3]
    want = None
    return thunk


def importing(mod, single=None):
    def thunk():
        b = baseline(TINY)
        if b[0] != "ok":
            return "the plain import fails: " + b[1]

        def run():
            import importlib.util
            spec = next(os.path.join(p, "dsps") for p in sys.path if os.path.exists(os.path.join(p, "dsps", "__init__.py")))
            S.ROOT = os.path.abspath(spec) + os.sep
            sys.modules["fsps"] = None
            done, n = set(), 0
            while True:
                if single is None:
                    at, r = S.cut_next(lambda: importlib.import_module(mod), done, KeyboardInterrupt, 2)
                    if at is None:
                        break
                else:
                    reached, r = S.cut(lambda: importlib.import_module(mod), single, KeyboardInterrupt, 1)
                    if not reached:
                        return ("end",)
                    n = 1
                    break
                n += 1
            if single is None and r[0] != "ok":
                return ("bad", "the import does not recover after %d interruptions: %s" % (n, r[1:]))
            for m in modules():
                importlib.import_module(m)
            import jax
            if not jax.config.jax_enable_x64:
                return ("bad", "x64 is off")
            res, const = observe(TINY)
            return ("ok", res, const, n)
        r = forked(run)
        if r[0] == "end":
            from mc.engine import Skip
            raise Skip()
        if r[0] != "ok":
            return r[1]
        for what, got, want in (("", r[1], b[1]), ("constant ", r[2], b[2])):
            for k, v in got.items():
                if k in want:
                    d = same(v if not what else [v], want[k] if not what else [want[k]])
                    if d:
                        return "%s%s: %s" % (what, k, d.replace("fresh process", "plain import"))
        if set(b[1]) - set(r[1]):
            return "missing calls: %s" % sorted(set(b[1]) - set(r[1]))
        return None, [x for v in r[1].values() for x in v], r[3], r[3]
    return thunk


def cases(tier):
    T = tier == "thorough"
    cs = []
    data = [o.name for o in O.env_ops() if o.name not in RANDOM and not o.name.endswith(":env")] + [o.name for o in O.drn_ops()]
    light = [n for n in data if n not in HEAVY]
    nj = tuple(n for n in data if n.startswith(NOJAX))
    for a in nj:
        cs.append(("first_call", a, "f" + a, first_call(a, nj, 2)))
    num = [o for o in O.build(("f",)) if o.entry is not None]
    for o in num:       # processes that have called nothing: before the worker loads the package
        n = o.entry.name
        cs.append(("tracing", n, "c" + n, tracing(n + ".f", (n + ".g",) + ((n + ".h",) if T else ()))))
    for m in modules():
        cs.append(("importing", m, "i" + m, importing(m)))
    for a in data:
        for e in EXC:
            if a in HEAVY and not T and e != "interrupt":
                continue
            cs.append(("data", "%s, %s" % (a, e), "d" + a + e, each(a, light if a not in HEAVY else light[:3], (e,), 2, False)))
    for a in light:
        for b in light:
            if T or kind(a) == kind(b):
                cs.append(("twice", "%s, %s" % (a, b), "t" + a + b, twice(a, b)))
    for o in num:
        n = o.entry.name
        cs.append(("evaluated", n, "e" + n, each(n + ".f", (n + ".g",), ("interrupt",) if not T else tuple(EXC), 1, True, 4 if n in SLOW and not T else 1)))
    return cs


def run(ctx):
    O.scratch_files()
    os.environ.update(JAX_COMPILATION_CACHE_DIR=os.path.join(os.environ["MC_SCRATCH"], "jc"), JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0", JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1")
    ctx.farm(cases(ctx.tier), BOUNDS)
