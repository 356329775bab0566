"""Controlled execution of the package's Python code, one source line of the package at a time.

`Tracer` numbers the yield points of a call (lines executed in frames of the package; the first VISITS visits
of every line).  `run_pair` runs two calls in two threads of which only one ever runs, switching exactly where
the plan says; `run_cut` raises an exception at one chosen yield point."""
import ast
import os
import sys
import threading
import time


ROOT = None          # set where the package is not imported yet


def root():
    import dsps
    return os.path.dirname(os.path.abspath(dsps.__file__)) + os.sep


def cleanup_lines(filename, memo={}):
    """(lines of finally and except blocks and `try:` headers, lines of with headers): where an asynchronous exception
    defeats the language's own clean-up (between acquiring and `try:`, or inside the releasing code)"""
    if filename not in memo:
        a, w = set(), set()
        with open(filename) as f:
            for n in ast.walk(ast.parse(f.read())):
                if isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                    a.add(n.lineno)
                    for b in list(n.finalbody) + list(n.handlers):
                        a.update(range(b.lineno, b.end_lineno + 1))
                elif isinstance(n, (ast.With, ast.AsyncWith)):
                    w.update(range(n.lineno, n.body[0].lineno))
                elif isinstance(n, ast.FunctionDef) and n.name in ("__exit__", "__del__"):
                    a.update(range(n.lineno, n.end_lineno + 1))
        memo[filename] = a, w
    return memo[filename]


class Tracer:
    """calls hit(n) at the n-th yield point (n = 1, 2, ...) of the thread it is installed in"""

    def __init__(self, hit, visits, cuts=False):
        self.cuts, self.with_seen = cuts, set()
        self.hit, self.visits, self.n, self.seen, self.root, self.known, self.at = hit, visits, 0, {}, ROOT or root(), {}, None

    def frame(self, f, event, arg):
        c = f.f_code
        ok = self.known.get(c)
        if ok is None:
            fn = c.co_filename
            ok = self.known[c] = fn.startswith(self.root) and os.sep + "tests" + os.sep not in fn
        return self.line if ok else None

    def line(self, f, event, arg):
        if event == "line" and not (self.cuts and self.releasing(f)):
            k = (f.f_code, f.f_lineno)
            v = self.seen[k] = self.seen.get(k, 0) + 1
            if v <= self.visits:
                self.n += 1
                self.at = (f.f_code.co_filename, f.f_lineno, f.f_code.co_name, v)
                self.hit(self.n)
        return self.line

    def releasing(self, f):
        a, w = cleanup_lines(f.f_code.co_filename)
        if f.f_lineno in w:
            k = (f, f.f_lineno)        # the frame itself: ids are reused
            if k in self.with_seen:
                return True            # on the way out
            self.with_seen.add(k)
        while f is not None:
            if self.known.get(f.f_code) and f.f_lineno in cleanup_lines(f.f_code.co_filename)[0]:
                return True
            f = f.f_back
        return False

    def __enter__(self):
        sys.settrace(self.frame)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def outcome(f):
    try:
        return ("ok", f())
    except BaseException as e:
        return ("exc", type(e).__name__, str(e))


def points(f, visits):
    """number of yield points of the call, run alone"""
    with Tracer(lambda n: None, visits) as t:
        f()
    return t.n


class Pair:
    """plan: [(thread, points), ...]: let that thread pass so many yield points, then the next entry; at the end both finish"""

    def __init__(self, fs, plan, visits, idle=2.0, limit=60.0):
        self.fs, self.plan, self.visits, self.idle, self.limit = fs, list(plan), visits, idle, limit
        self.cv = threading.Condition()
        self.seg = 0
        self.left = self.plan[0][1]
        self.done = [False, False]
        self.res = [None, None]
        self.n = [0, 0]
        self.short = False          # a thread ended before its planned switch
        self.free = False           # a thread waits for something the other holds: both run
        self.beat = 0
        self.switches = 0

    def cur(self):
        if self.seg < len(self.plan):
            t = self.plan[self.seg][0]
        else:
            t = self.plan[-1][0]
        if self.done[t]:
            t = 1 - t
        return t

    def advance(self):
        self.seg += 1
        self.left = self.plan[self.seg][1] if self.seg < len(self.plan) else float("inf")
        self.switches += 1
        self.cv.notify_all()

    def hit(self, i, n):
        with self.cv:
            self.beat += 1
            self.n[i] = n
            while not self.free:
                if self.cur() != i:
                    self.cv.wait(0.5)
                    continue
                if self.seg < len(self.plan) and self.plan[self.seg][0] == i:
                    if self.left <= 0:
                        self.advance()
                        continue
                    self.left -= 1
                return

    def body(self, i):
        with self.cv:
            while self.cur() != i and not self.free:
                self.cv.wait(0.5)
        t = Tracer(lambda n: self.hit(i, n), self.visits)
        sys.settrace(t.frame)
        try:
            r = outcome(self.fs[i])
        finally:
            sys.settrace(None)
        with self.cv:
            self.res[i] = r
            self.done[i] = True
            self.beat += 1
            while self.seg < len(self.plan) and self.plan[self.seg][0] == i:
                if self.left != float("inf"):
                    self.short = True
                self.advance()
            self.cv.notify_all()

    def run(self):
        th = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in (0, 1)]
        [t.start() for t in th]
        t0, last, tl = time.time(), -1, time.time()
        while not all(self.done):
            with self.cv:
                if not all(self.done):
                    self.cv.wait(0.2)
                if self.beat != last:
                    last, tl = self.beat, time.time()
                elif time.time() - tl > self.idle and not self.free:
                    self.free = True
                    self.cv.notify_all()
            if time.time() - t0 > self.limit:
                return "the two calls do not finish (%s)" % ("both wait" if self.free else "one waits")
        [t.join() for t in th]
        return None


def cut(f, k, exc, visits):
    """run f, raising exc at its k-th yield point -> (reached, outcome)"""
    reached = []

    def hit(n):
        if n == k:
            reached.append(n)
            raise exc("injected at yield point %d" % n)
    t = Tracer(hit, visits, cuts=True)
    sys.settrace(t.frame)
    try:
        r = outcome(f)
    finally:
        sys.settrace(None)
    return bool(reached), r


def cut_next(f, done, exc, visits):
    """run f, raising exc at its first yield point whose line (and visit) is not in done -> (line or None, outcome)"""
    hitat = []
    t = None

    def hit(n):
        k = t.at
        if not hitat and k not in done:
            done.add(k)
            hitat.append(k)
            raise exc("injected at %s line %d" % (os.path.basename(k[0]), k[1]))
    t = Tracer(hit, visits, cuts=True)
    sys.settrace(t.frame)
    try:
        r = outcome(f)
    finally:
        sys.settrace(None)
    return (hitat[0] if hitat else None), r
