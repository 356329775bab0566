"""Bounded exhaustive explorer used by every check.

A scenario fixes an alphabet (axes of named alternatives, or a menu of operations) and a
bound, and the explorer visits *every* element: `product` walks the whole choice tree and
executes the real code on each leaf, `vproduct` does the same with the real code batched by
jax.vmap (and un-batched on every leaf with at most `dev` deviations from the default), `bfs`
explores operation histories breadth-first with a canonical state, `words` every operation
word up to a depth.  Nothing is sampled; a capped scenario is a harness error.

Counting:  states      = nodes of the choice tree (partial choices) or canonical BFS states
           transitions = edges taken (one more choice fixed / one operation executed)
           traces      = complete behaviours executed on the real code and compared with the
                         reference model / monitored invariants
"""
import hashlib
import itertools
import json
import os
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_FAIL = 400


class Skip(Exception):
    """This configuration lies outside the property's stated domain."""


def lab(v):
    """Readable, stable label of an alternative."""
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str):
        return v[0]
    if isinstance(v, (str, int, float, bool, type(None))):
        return repr(v)
    if isinstance(v, np.ndarray):
        if v.size <= 6:
            return repr(v.tolist())
        return "array%s[%.6g..%.6g]#%s" % (
            v.shape, float(v.flat[0]), float(v.flat[-1]),
            hashlib.md5(np.ascontiguousarray(v).tobytes()).hexdigest()[:6])
    if callable(v):
        return getattr(v, "__name__", "fn")
    return str(v)[:80]


def val(v):
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str):
        return v[1]
    return v


class Cfg(dict):
    __getattr__ = dict.__getitem__


_SIG = json.load(open(os.path.join(VERIF, "mc", "sigs.json")))


def same_call(f, key):
    """can f be called the way the pinned tree's helper is? (parameters may be renamed, not moved, added or dropped)"""
    import inspect
    want = _SIG.get(key)
    if want is None:
        return True
    try:
        ps = list(inspect.signature(f).parameters.values())
    except (TypeError, ValueError):
        return True
    if len(ps) < len(want) or any(q.default is q.empty for q in ps[len(want):]):
        return False
    got = [q.name for q in ps]
    return all(g == w or (g not in want and w not in got) for g, w in zip(got, want))


def opt(module, name):
    """A private helper that a refactoring may rename or re-arrange: None unless it is there with its known signature."""
    import importlib
    try:
        f = getattr(importlib.import_module(module), name, None)
    except ImportError:
        return None
    return f if f is not None and same_call(f, module + "." + name) else None


def npa(x):
    return np.asarray(x)


def bad_close(got, want, rtol=1e-9, atol=0.0):
    """None when got matches want (shape, finiteness, value), else a message."""
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        return "shape %s, expected %s" % (g.shape, w.shape)
    g = g.astype(float)
    w = w.astype(float)
    ok = (g == w) | (np.isnan(g) & np.isnan(w))
    with np.errstate(invalid="ignore"):
        ok = ok | (np.abs(g - w) <= atol + rtol * np.abs(w))
    if np.all(ok):
        return None
    k = tuple(int(i) for i in np.argwhere(~ok)[0])
    return "value%s = %r, expected %r (%d of %d entries differ)" % (
        list(k), float(g[k]), float(w[k]), int((~ok).sum()), g.size)


class Ctx:
    def __init__(self, pid, tier, seed, only=None):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.thorough = tier == "thorough"
        self.states = self.transitions = self.traces = 0
        self.scen = {}
        self.samples = []
        self.viol = []          # unlisted violations
        self.known_hit = []
        self.skipped = []
        self.assumptions = []
        self.t0 = time.time()
        self._known = self._load_known()
        self.cur = None

    # ---------- bookkeeping
    def _load_known(self):
        fn = os.path.join(VERIF, "known_findings.jsonl")
        out = []
        if os.path.exists(fn):
            for line in open(fn):
                line = line.strip()
                if line.startswith("{"):
                    d = json.loads(line)
                    if d["property"] == self.pid:
                        out.append(d)
        return out

    def want(self, name):
        return self.only is None or self.only["scenario"] == name

    def skip(self, name, why):
        self.skipped.append("%s: %s" % (name, why))

    def _begin(self, name, bound):
        assert name not in self.scen, "duplicate scenario " + name
        s = dict(states=0, transitions=0, executions=0, out_of_domain=0, outcomes=set(),
                 bound=bound, t0=time.time(), fails=[])
        self.scen[name] = s
        self.cur = s
        return s

    def _end(self, name):
        s = self.scen[name]
        s["wall_s"] = round(time.time() - s.pop("t0"), 2)
        s["distinct_outcomes"] = len(s.pop("outcomes"))
        fails = s.pop("fails")
        self.states += s["states"]
        self.transitions += s["transitions"]
        self.traces += s["executions"]
        new = []
        for f in fails:
            k = self._match_known(name, f)
            if k is None:
                new.append(f)
            elif k not in self.known_hit:
                self.known_hit.append(k)
        s["violations"] = len(new)
        if new:
            new.sort(key=lambda f: f["order"])   # fewest deviations first
            self.viol.append(dict(scenario=name, n=len(new), **new[0]))
        self.cur = None

    def _match_known(self, name, f):
        for k in self._known:
            if k["scenario"] != name:
                continue
            if all(f["labels"].get(a) in (b if isinstance(b, list) else [b]) for a, b in k["cfg"].items()):
                if k.get("problem") and k["problem"] not in f["problem"]:
                    continue
                return k
        return None

    def outcome(self, *xs):
        h = hashlib.md5()
        for x in xs:
            try:
                a = np.asarray(x, dtype=float)
                with np.errstate(all="ignore"):
                    h.update(np.array2string(np.round(a.ravel()[:64], 9)).encode())
            except Exception:
                h.update(str(x).encode())
        self.cur["outcomes"].add(h.hexdigest()[:12])

    def _fail(self, s, order, cfg_idx, labels, problem, extra=None):
        if len(s["fails"]) < MAX_FAIL:
            s["fails"].append(dict(order=order, cfg=cfg_idx, labels=labels,
                                   problem=str(problem)[:2000], extra=extra))

    def _sample(self, name, labels, note=None):
        if len(self.samples) < 40 and sum(1 for x in self.samples if x["scenario"] == name) < 2:
            d = dict(scenario=name, cfg=labels)
            if note is not None:
                d["observed"] = note
            self.samples.append(d)

    # ---------- choice-tree exploration, one real execution per leaf
    def product(self, name, axes, check, bound="full product", dom=None):
        """check(cfg) -> None | message | list of messages; raises Skip when out of domain."""
        if not self.want(name):
            return
        s = self._begin(name, bound)
        names = list(axes)
        alts = [list(axes[n]) for n in names]
        labels_tab = [[lab(v) for v in a] for a in alts]
        prev = None
        s["states"] += 1
        only = self.only["cfg"] if self.only else None
        for idx in itertools.product(*[range(len(a)) for a in alts]):
            if only is not None and list(idx) != list(only):
                continue
            k = 0
            if prev is not None:
                while idx[k] == prev[k]:
                    k += 1
            s["states"] += len(idx) - k
            s["transitions"] += len(idx) - k
            prev = idx
            cfg = Cfg((n, val(a[i])) for n, a, i in zip(names, alts, idx))
            cfg["idx_"] = idx
            labels = {n: t[i] for n, t, i in zip(names, labels_tab, idx)}
            try:
                if dom is not None and not dom(cfg):
                    s["out_of_domain"] += 1
                    continue
                r = check(cfg)
            except Skip:
                s["out_of_domain"] += 1
                continue
            except (MemoryError, KeyboardInterrupt):
                raise
            except Exception as e:
                r = "exception %s: %s\n%s" % (type(e).__name__, e, _short_tb())
            s["executions"] += 1
            if r:
                msgs = [r] if isinstance(r, str) else [m for m in r if m]
                if msgs:
                    order = (sum(1 for i in idx if i), sum(idx))
                    self._fail(s, order, list(idx), labels, "; ".join(map(str, msgs)))
            self._sample(name, labels)
        self._end(name)

    # ---------- the same, batched
    def vproduct(self, name, axes, impl, ref=None, rtol=1e-9, atol=0.0, inv=None, dom=None,
                 single=None, dev=1, chunk=20000, bound="full product (batched execution)", tol=None):
        """axes: name -> array (n_alt, ...); impl/ref take batched columns (dict) -> dict of arrays.

        `single(cfg)` runs the plain, un-batched code for every leaf with <= dev deviations
        from the first alternative of each axis and must agree with the batched result.
        """
        if not self.want(name):
            return
        s = self._begin(name, bound)
        names = list(axes)
        cols = [np.asarray(axes[n]) for n in names]
        sizes = [len(c) for c in cols]
        total = int(np.prod(sizes))
        node = 1
        acc = 1
        for n in sizes:
            acc *= n
            node += acc
        only = self.only["cfg"] if self.only else None
        flat = np.arange(total)
        if only is not None:
            flat = np.array([np.ravel_multi_index(only, sizes)])
        else:
            s["states"] += node
            s["transitions"] += node - 1
        ndev_all = sum((np.array(np.unravel_index(flat, sizes)) != 0))
        for lo in range(0, len(flat), chunk):
            sub = flat[lo:lo + chunk]
            ii = np.unravel_index(sub, sizes)
            c = {n: col[i] for n, col, i in zip(names, cols, ii)}
            if dom is not None:
                m = np.asarray(dom(c))
                s["out_of_domain"] += int((~m).sum())
                if not m.any():
                    continue
                sub = sub[m]
                ii = [i[m] for i in ii]
                c = {n: v[m] for n, v in c.items()}
            B = len(sub)

            def lbl(j):
                return {n: lab(np.asarray(c[n][j])) if np.ndim(c[n][j]) else repr(np.asarray(c[n][j]).item()) for n in names}

            def report(mask, what):
                for j in np.nonzero(mask)[0][:50]:
                    idx = [int(i[j]) for i in ii]
                    self._fail(s, (sum(1 for i in idx if i), sum(idx)), idx, lbl(j), what(j))

            try:
                out = impl(c)
                out = {k: np.asarray(v) for k, v in out.items()}
            except (MemoryError, KeyboardInterrupt):
                raise
            except Exception as e:
                msg = "exception %s: %s\n%s" % (type(e).__name__, e, _short_tb())
                report(np.arange(B) == 0, lambda j: msg)
                s["executions"] += B
                continue
            s["executions"] += B
            want = ref(c) if ref is not None else {}
            for k, w in want.items():
                w = np.asarray(w)
                if k not in out:
                    continue
                g = out[k]
                if g.shape != w.shape:
                    report(np.arange(B) == 0, lambda j: "%s: shape %s, expected %s" % (k, g.shape, w.shape))
                    continue
                rt, at = rtol, atol
                if tol is not None and k in tol:
                    t = tol[k]
                    rt, at = t if isinstance(t, tuple) else t(c, w)
                with np.errstate(invalid="ignore"):
                    ok = (g == w) | (np.isnan(g) & np.isnan(w)) | (np.abs(g - w) <= at + rt * np.abs(w))
                okb = ok.reshape(B, -1).all(axis=1)
                if not okb.all():
                    def what(j, k=k, g=g, w=w, ok=ok):
                        e = np.argwhere(~np.atleast_1d(ok[j]))[0]
                        e = tuple(e)
                        return "%s%s = %r, reference model %r" % (
                            k, list(map(int, e)), float(np.atleast_1d(g[j])[e]), float(np.atleast_1d(w[j])[e]))
                    report(~okb, what)
            if inv is not None:
                for k, m in inv(c, out).items():
                    m = np.asarray(m).reshape(B, -1).all(axis=1)
                    if not m.all():
                        report(~m, lambda j, k=k: "invariant broken: %s; output %s" % (
                            k, {n: np.array2string(np.atleast_1d(v[j]).ravel()[:8], precision=17) for n, v in out.items()}))
            for k in out:
                o = np.round(out[k].reshape(B, -1).astype(float)[:, :32], 9)
                for row in o[:2000]:
                    s["outcomes"].add(row.tobytes())
            if single is not None:
                nd = ndev_all[np.isin(flat, sub)] if only is None else np.zeros(B, int)
                for j in np.nonzero(nd <= dev)[0]:
                    cfg = Cfg((n, c[n][j]) for n in names)
                    idx = [int(i[j]) for i in ii]
                    try:
                        o1 = single(cfg)
                        m = [bad_close(o1[k], out[k][j], 1e-9, atol if np.ndim(atol) == 0 else 0) for k in o1]
                        m = [x for x in m if x]
                    except Exception as e:
                        m = ["exception %s: %s\n%s" % (type(e).__name__, e, _short_tb())]
                    s["executions"] += 1
                    if m:
                        self._fail(s, (sum(1 for i in idx if i), sum(idx)), idx, lbl(j),
                                   "un-batched call disagrees with batched call: " + m[0])
            self._sample(name, lbl(0), {k: np.array2string(np.atleast_1d(v[0]).ravel()[:6]) for k, v in out.items()})
        self._end(name)

    # ---------- operation histories
    def bfs(self, name, ops, run, depth, bound=None):
        """run(hist) replays the history on fresh real objects -> (canon, problem|None, enabled|None)."""
        if not self.want(name):
            return
        s = self._begin(name, bound or "all histories to depth %d, canonical states merged" % depth)
        only = tuple(self.only["cfg"]) if self.only else None
        opn = [lab(o) for o in ops]

        def go(h):
            try:
                return run(tuple(val(ops[i]) for i in h))
            except Skip:
                return None
            except Exception as e:
                return ("exc",), "exception %s: %s\n%s" % (type(e).__name__, e, _short_tb()), None

        if only is not None:
            c, prob, _ = go(only)
            s["executions"] += 1
            if prob:
                self._fail(s, (len(only), sum(only)), list(only), {"history": [opn[i] for i in only]}, prob)
            self._end(name)
            return
        r = go(())
        seen = {r[0]}
        s["states"] += 1
        s["executions"] += 1
        if r[1]:
            self._fail(s, (0, 0), [], {"history": []}, r[1])
        frontier = [((), r[2])]
        for d in range(depth):
            nxt = []
            for h, enabled in frontier:
                for i in (range(len(ops)) if enabled is None else enabled):
                    h2 = h + (i,)
                    r = go(h2)
                    if r is None:
                        continue
                    s["transitions"] += 1
                    s["executions"] += 1
                    if r[1]:
                        self._fail(s, (len(h2), sum(h2)), list(h2), {"history": [opn[k] for k in h2]}, r[1])
                        continue
                    if r[0] not in seen:
                        seen.add(r[0])
                        s["states"] += 1
                        nxt.append((h2, r[2]))
                        self._sample(name, {"history": [opn[k] for k in h2]})
            frontier = nxt
            if not frontier:
                s["bound"] += "; state space closed at depth %d" % (d + 1)
                break
        s["outcomes"] = seen
        self._end(name)

    def words(self, name, ops, run, depth, min_depth=1, bound=None, dom=None):
        """Every word over ops of length min_depth..depth; run(word)-> problem|None."""
        if not self.want(name):
            return
        s = self._begin(name, bound or "all operation words of length %d..%d" % (min_depth, depth))
        only = tuple(self.only["cfg"]) if self.only else None
        opn = [lab(o) for o in ops]
        s["states"] += 1
        for d in range(1, depth + 1):
            for w in itertools.product(range(len(ops)), repeat=d):
                if only is not None and w != only:
                    continue
                vals = tuple(val(ops[i]) for i in w)
                if dom is not None and not dom(vals):
                    s["out_of_domain"] += 1
                    continue
                s["states"] += 1
                s["transitions"] += 1
                if d < min_depth:
                    continue
                try:
                    r = run(vals)
                except Skip:
                    s["out_of_domain"] += 1
                    continue
                except Exception as e:
                    r = "exception %s: %s\n%s" % (type(e).__name__, e, _short_tb())
                s["executions"] += 1
                if r:
                    self._fail(s, (d, sum(w)), list(w), {"word": [opn[k] for k in w]}, r)
                self._sample(name, {"word": [opn[k] for k in w]})
        self._end(name)

    # ---------- a list of independent cases spread over worker processes
    def farm(self, cases, bounds, workers=8):
        """cases: list of (scenario, label, group, thunk) as built by the check's cases(tier);
        every worker rebuilds the same list and executes its groups; thunk() -> problem or (problem, outputs)."""
        from mc import farm as F
        import subprocess
        scs = list(dict.fromkeys(c[0] for c in cases))
        res = {}
        if self.only is not None:
            for k, c in enumerate(cases):
                if self.want(c[0]) and list(self.only["cfg"]) == [k]:
                    res[k] = F.execute(c[3])
        else:
            ps = []
            with open(os.path.join(os.environ["MC_SCRATCH"], "farm.queue"), "w") as f:
                f.write("0")
            for i in range(workers):
                err = open(os.path.join(os.environ["MC_SCRATCH"], "farm%d.err" % i), "w+")
                ps.append((subprocess.Popen([sys.executable, "-m", "mc.farm", self.pid, self.tier, str(i), str(workers)], stdout=subprocess.PIPE, stderr=err, cwd=VERIF), err))
            import threading
            bufs = [None] * workers

            def rd(i):
                bufs[i] = ps[i][0].communicate()[0].decode()
            th = [threading.Thread(target=rd, args=(i,)) for i in range(workers)]
            [t.start() for t in th]
            [t.join() for t in th]
            for i, b in enumerate(bufs):
                ended = False
                for line in b.splitlines():
                    d = json.loads(line)
                    if "end" in d:
                        ended = True
                    else:
                        res[d["k"]] = d
                if not ended:
                    ps[i][1].seek(0)
                    raise RuntimeError("worker %d ended early (status %s): %s" % (i, ps[i][0].returncode, ps[i][1].read()[-2000:]))
            assert len(res) == len(cases), "workers covered %d of %d cases" % (len(res), len(cases))
        for name in scs:
            if not self.want(name):
                continue
            s = self._begin(name, bounds[name])
            s["states"] += 1
            groups = set()
            for k, c in enumerate(cases):
                if c[0] != name or k not in res:
                    continue
                s["states"] += 1 + (c[2] not in groups)
                s["transitions"] += 1 + (c[2] not in groups)
                groups.add(c[2])
                d = res[k]
                if d.get("skip"):
                    s["out_of_domain"] += 1
                    continue
                s["executions"] += d.get("n", 1)
                s["transitions"] += d.get("pts", 0)     # yield points passed, where a case explores schedules of its own
                s["cpu_s"] = round(s.get("cpu_s", 0) + d.get("t", 0), 2)
                if d.get("t", 0) > s.get("slowest", [0])[0]:
                    s["slowest"] = [d["t"], c[1]]
                if d.get("o"):
                    s["outcomes"].add(d["o"])
                if d.get("r"):
                    self._fail(s, (0, k), [k], {"case": c[1]}, d["r"])
                self._sample(name, {"case": c[1]})
            self._end(name)

    # ---------- finish
    def finish(self):
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
        code = 0
        rdir = os.path.join(VERIF, "out", "replay")
        for n, v in enumerate(self.viol):
            os.makedirs(rdir, exist_ok=True)
            fn = os.path.join(rdir, "%s-%d.json" % (self.pid, n))
            with open(fn, "w") as f:
                json.dump(dict(property=self.pid, tier=self.tier, scenario=v["scenario"], cfg=v["cfg"], labels=v["labels"],
                               problem=v["problem"], failing_configs=v["n"],
                               replay_cmd="./run.sh %s --tier %s --replay %s" % (self.pid, self.tier, fn)), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, fn), flush=True)
            print("  scenario %s cfg %s\n  %s (%d failing configurations)" % (
                v["scenario"], json.dumps(v["labels"])[:600], v["problem"][:900], v["n"]), flush=True)
            code = 1
        if self.only is None:
            self._write_evidence()
        if not self.scen and self.only is None:
            print("no scenario ran", flush=True)
            code = code or 2
        return code

    def _write_evidence(self):
        for name, s in self.scen.items():
            s.pop("fails", None)
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
            coverage=dict(
                states=self.states, transitions=self.transitions,
                traces_validated_against_impl=self.traces,
                samples=self.samples, exhaustive=True,
                scenarios=self.scen, skipped=self.skipped,
                known_findings_seen=[k["what"] for k in self.known_hit],
            ),
            assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
            violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        fn = os.path.join(VERIF, "evidence", self.pid + ".json")
        tmp = fn + ".tmp"
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, fn)


def _short_tb():
    tb = traceback.format_exc().strip().splitlines()
    return "\n".join(tb[-6:])
