"""Every schedule of two calls in two threads, up to a number of switches, with a switch possible at every source line of the package."""
import os
import sys
import numpy as np
from mc import ops as O
from mc import sched as S
from mc.checks.c20 import forked, load_all, same

NOCLEAR = PREJAX = True
RANDOM = ("ran_curve:c", "fsps", "fsps:kw")       # drawn at random; configured differently from the other retrievals

OPS = {}


def op(name):
    if not OPS:
        OPS.update((o.name, o) for o in O.build(("f", "g", "h")) + O.drn_ops())
    return OPS[name]


BOUNDS = {"first_calls": "all pairs of data-handling calls of one kind (thorough: all pairs of them), each the first of its process, x every line of the first at which the second runs to its end",
          "data": "all ordered pairs of the data-handling calls (quick: the fake templates with three of them only) x every line of the first at which the second runs to its end",
          "data_twice": "all pairs of data-handling calls of one kind x every two switches (thorough: all pairs of the light ones)",
          "evaluated": "every numerical function with two argument sets, evaluated without compilation x every line of the first (quick: every fourth line of the eight composite functions) at which the second runs to its end (thorough: both orders, a third argument set of other shapes, second visits of a line)",
          "evaluated_pairs": "ordered pairs of different numerical functions of one subpackage (quick: neighbours in the catalogue), evaluated without compilation",
          "compiling": "every numerical function with argument sets of two shapes, both compiled for the first time x a switch at lines of the first's tracing (quick: every eighth function)"}


class Call:
    def __init__(self, name):
        self.o = op(name)
        self.name = name

    def prepare(self):
        fn, ins = self.o.make()
        return lambda: O.canon(fn(*ins))


def solo(c):
    r = S.outcome(c.prepare())
    return r


def differ(got, want):
    if got is None:
        return "no result"
    if got[0] != want[0]:
        return "%s instead of %s" % (got[:3] if got[0] == "exc" else "a result", want[:3] if want[0] == "exc" else "a result")
    if got[0] == "exc":
        return None if got[1] == want[1] else "raises %s, alone %s" % (got[1:], want[1:])
    d = same(got[1], want[1])
    return d and d.replace("fresh process gives", "alone")


def explore(a, b, bound, visits, mode, stride=1):
    def thunk():
        import jax
        load_all()
        os.environ["DSPS_DRN"] = O.scratch_files()
        if mode == "eager":
            jax.config.update("jax_disable_jit", True)
        try:
            return inner(jax)
        finally:
            if mode == "eager":
                jax.config.update("jax_disable_jit", False)

    def inner(jax):
        cs = [Call(a), Call(b)]
        want = [solo(c) for c in cs]
        for c, w in zip(cs, want):
            d = differ(solo(c), w)
            if d:
                return "%s repeated alone: %s" % (c.name, d)
        here = (os.getcwd(), dict(os.environ))
        stat = [0, 0]
        waits = [0]         # schedules in which one call had to wait for the other (a lock): not worth taking one by one

        def go(plan):
            if mode == "cold":
                jax.clear_caches()
            p = S.Pair([c.prepare() for c in cs], plan, visits, idle=2.0 if mode == "cold" else 1.0 if mode == "eager" else 0.25)
            stuck = p.run()
            waits[0] += p.free
            stat[0] += 1
            stat[1] += sum(p.n)
            if stuck:
                return stuck, p
            for i in (0, 1):
                d = differ(p.res[i], want[i])
                if d:
                    return "%s: %s" % (cs[i].name, d), p
            if (os.getcwd(), dict(os.environ)) != here:
                return "the working directory or the environment is not what it was", p
            for i in (0, 1) if stat[0] % 16 == 1 else ():
                d = differ(solo(cs[i]), want[i])
                if d:
                    return "%s alone afterwards: %s" % (cs[i].name, d), p
            return None, p

        INF = float("inf")
        outs = [x for w in want if w[0] == "ok" for x in w[1]]
        k = 0
        while True:
            plan = [(0, k), (1, INF)]
            d, p = go(plan)
            if d:
                return "%s stopped before line %d, %s run, then the rest: %s" % (a, k + 1, b, d), outs, stat[0], stat[1]
            if p.short:
                break
            k += stride if waits[0] < 40 else 4 * stride
        last = k
        if bound > 1:
            for k in range(1, last):
                j = 1
                while True:
                    d, p = go([(0, k), (1, j), (0, INF)])
                    if d:
                        return "%s stopped before line %d, %s before line %d, the rest of the first, of the second: %s" % (a, k + 1, b, j + 1, d), outs, stat[0], stat[1]
                    if p.short or waits[0] > 40:
                        break
                    j += 1
        d = next((d for d in (differ(solo(c), w) for c, w in zip(cs, want)) if d), None)
        return (d and "alone afterwards: " + d), outs, stat[0], stat[1]
    return thunk


NOJAX = ("load_", "subset", "interp", "fsps")        # calls that a fork of a process with a JAX backend can make


def cold(job):
    """job(fresh) in a process that has loaded the package and called nothing; fresh(f) runs f in a fork of that process"""
    def run():
        load_all()
        os.environ["DSPS_DRN"] = O.scratch_files()

        def fresh(f):
            r = forked(lambda: ("ok", f()), timeout=60)
            return r if r[0] != "ok" else r[1]
        return ("ok", job(fresh))
    r = forked(run, timeout=800)
    return r[1] if r[0] == "ok" else r[1] + " (process)"


def first_calls(a, partners, visits):
    def job(fresh):
        n = pts = 0
        want = {c: fresh(lambda: solo(Call(c))) for c in dict.fromkeys((a,) + tuple(partners))}
        outs = want[a][1] if want[a][0] == "ok" else ()
        for b in partners:
            k = 0
            while True:
                def pair():
                    p = S.Pair([Call(a).prepare(), Call(b).prepare()], [(0, k), (1, float("inf"))], visits, idle=0.25)
                    stuck = p.run()
                    return stuck, p.res, p.short, sum(p.n), [solo(Call(c)) for c in (a, b)] if not stuck else None
                r = fresh(pair)
                if r[0] == "crash":
                    return "%s stopped before line %d, %s: %s" % (a, k + 1, b, r[1]), outs, n, pts
                stuck, res, short, p, later = r
                n, pts = n + 1, pts + p
                d = stuck
                for i, c in enumerate((a, b)):
                    d = d or differ(res[i], want[c]) or differ(later[i], want[c])
                if d:
                    return "%s (first call) stopped before line %d, %s run, then the rest: %s" % (a, k + 1, b, d), outs, n, pts
                if short:
                    break
                k += 1
        return None, outs, n, pts
    return lambda: cold(job)


def kind(n):
    return n.split(":")[0].split("_")[0] if not n.startswith("load") else n.split(":")[0]


SLOW = ("tab_kcorr", "tab_rest", "tab_obs", "met_weights_table", "ssp_weights_mdf", "ssp_weights_table", "rest_sed_mdf", "rest_sed_table")     # composites of the others
HEAVY = ("fake_ssp", "fake_ssp:0")


def cases(tier):
    T = tier == "thorough"
    cs = []
    data = [o.name for o in O.env_ops() if o.name not in RANDOM and not o.name.endswith(":env")] + [o.name for o in O.drn_ops()]
    nj = [n for n in data if n.startswith(NOJAX)]
    for a in nj:
        for part in [tuple(b for b in nj if kind(b) == kind(a))] + ([tuple(b for b in nj if kind(b) != kind(a))] if T else []):
            cs.append(("first_calls", "%s, %s" % (a, "others" if part and kind(part[0]) != kind(a) else "same kind"), "f" + a + str(part), first_calls(a, part, 2)))
    for a in data:
        for b in data:
            hv = (a in HEAVY) + (b in HEAVY)
            if not T and (hv == 2 and a != b or hv == 1 and (a + b).replace(HEAVY[0], "").replace(":0", "") not in ("fake_filters", "load_ssp:a")):
                continue
            cs.append(("data", "%s, %s" % (a, b), "d" + a, explore(a, b, 1, 3 if T else 1 if hv else 2, "warm")))
    for a in data:
        for b in data:
            if a not in HEAVY and b not in HEAVY and (T or kind(a) == kind(b)):
                cs.append(("data_twice", "%s, %s" % (a, b), "t" + a + b, explore(a, b, 2, 2 if T else 1, "warm")))
    num = [o for o in O.build(("f",)) if o.entry is not None]
    for o in num:
        n = o.entry.name
        for x, y in (("f", "g"),) + ((("g", "f"), ("f", "h"), ("h", "f")) if T else ()):
            cs.append(("evaluated", "%s.%s, %s.%s" % (n, x, n, y), "e" + n, explore("%s.%s" % (n, x), "%s.%s" % (n, y), 1, 1 if not T else 2, "eager", 4 if n in SLOW and not T else 1)))
    for i, o in enumerate(num):
        for j, q in enumerate(num):
            if i == j or o.cluster != q.cluster or not (T or j == i + 1 and o.entry.name not in SLOW and q.entry.name not in SLOW):
                continue
            cs.append(("evaluated_pairs", "%s, %s" % (o.name, q.name), "p" + o.name, explore(o.name, q.name, 1, 1, "eager")))
    for i, o in enumerate(num):
        if T or i % 8 == 0:
            n = o.entry.name
            cs.append(("compiling", "%s.f, %s.h" % (n, n), "c" + n, explore(n + ".f", n + ".h", 1, 1, "cold", 1 if T else 3)))
    return cs


def run(ctx):
    O.scratch_files()
    os.environ.update(JAX_COMPILATION_CACHE_DIR=os.path.join(os.environ["MC_SCRATCH"], "jc"), JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0", JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1")
    ctx.farm(cases(ctx.tier), BOUNDS)
