"""Systematic scheduling of real threads running the code under test.

Exactly one controlled thread runs at a time.  The package is imported with scheduling points compiled in: before every
statement of a function and, in fine mode, after every attribute load, subscript and call.  Further points are the lock
operations of the package and explicit `point()` calls of the drivers.
`explore` enumerates all schedules with at most `bound` preemptions (switches away from a thread that could go on).
"""
from __future__ import annotations

import _thread
import ast
import asyncio
import importlib.abc
import importlib.machinery
import os
import sys
import threading
import time
import weakref

from .core import REPO, HangError

PKG = str((REPO / "expression").resolve()) + os.sep
_lock, _rlock = threading.Lock, threading.RLock
MAX_POINTS = 20000


class Abort(BaseException):
    """Raised in controlled threads that cannot go on."""


class Sched:
    def __init__(self, prefix=(), bound=2, fine=False, rng=None, lines=False):
        self.prefix, self.bound, self.fine, self.lines = prefix, bound, fine, lines
        self.rng = rng  # random scheduling instead of enumeration
        self.decisions = []  # (chosen, number of alternatives within the bound)
        self.threads = []
        self.current = None
        self.preempted = 0
        self.points = 0
        self.deadlock = None
        self.hang = False
        self.main_sem = _thread.allocate_lock()
        self.main_sem.acquire()

    # -- set-up ------------------------------------------------------------
    def spawn(self, name, fn):
        t = CT(self, name, fn)
        self.threads.append(t)
        return t

    def helper(self, name, fn):
        """Called by the running thread: start another one and wait until it has ended."""
        cur, t = me(), self.spawn(name, fn)
        _thread.start_new_thread(t.main, ())
        while t.state != "done":
            self.block(cur, lambda: t.state == "done")

    def run(self, limit=30):
        for t in self.threads:
            _thread.start_new_thread(t.main, ())
        self.pick(None)
        if not self.main_sem.acquire(timeout=limit):
            self.hang = True
            raise NativeBlock(self.where())
        if self.deadlock == "runaway":
            raise HangError(f"no end after {MAX_POINTS} scheduling points")

    def where(self):
        return [(t.name, t.state, t.err) for t in self.threads]

    # -- scheduling --------------------------------------------------------
    def enabled(self):
        return [t for t in self.threads if t.state == "ready" or (t.state == "blocked" and t.pred())]

    def choose(self, cur):
        """The next thread: cur itself is preferred; None if nobody can go on."""
        en = self.enabled()
        if not en:
            return None
        free = cur is None or cur not in en
        if not free:
            en.remove(cur)
            en.insert(0, cur)
        n = len(en) if free or self.preempted < self.bound else 1
        if n == 1:
            return en[0]
        i = len(self.decisions)
        if self.rng is not None:
            c = self.rng.randrange(n) if free or self.rng.random() < 0.2 else 0
        else:
            c = self.prefix[i] if i < len(self.prefix) else 0
        self.decisions.append((c, n))
        if c and not free:
            self.preempted += 1
        return en[c]

    def pick(self, cur):
        """Called by the running thread (cur) or at the end of a thread / at the start (None)."""
        t = self.choose(cur)
        if t is None:
            stuck = [x for x in self.threads if x.state == "blocked"]
            if not stuck:
                self.main_sem.release()
                return
            self.deadlock = self.deadlock or [x.name for x in stuck]
            t = stuck[0]  # let it end
            t.abort = True
        if t is cur:
            cur.state = "ready"
            return
        t.state = "ready"
        self.current = t
        t.sem.release()
        if cur is not None:
            cur.sem.acquire()

    def point(self, t):
        if self.hang:
            return
        self.points += 1
        if self.points > MAX_POINTS:
            self.deadlock = "runaway"
            raise Abort
        self.pick(t)
        if t.abort:
            t.abort = False
            raise Abort

    def block(self, t, pred):
        if self.hang:
            raise Abort
        t.state, t.pred = "blocked", pred
        self.pick(t)
        if t.abort:
            t.abort = False
            raise Abort


class CT:
    def __init__(self, sched, name, fn):
        self.sched, self.name, self.fn = sched, name, fn
        self.state = "ready"
        self.pred = None
        self.abort = False
        self.err = None
        self.sem = _thread.allocate_lock()
        self.sem.acquire()

    def trace(self, frame, event, arg):
        """Scheduling points before the lines of a package that was imported as it is."""
        if event == "call":
            return self.trace if frame.f_code.co_filename.startswith(PKG) else None
        if event == "line":
            self.sched.point(self)
        return self.trace

    def main(self):
        self.sem.acquire()
        _local.ct = self
        try:
            if self.sched.lines:
                sys.settrace(self.trace)
            self.fn()
        except Abort:
            self.err = "aborted"
        except BaseException as e:  # noqa: BLE001
            self.err = repr(e)
        finally:
            sys.settrace(None)
            _local.ct = None
            self.state = "done"
            if not self.sched.hang:
                self.sched.pick(None)


class NativeBlock(Exception):
    """A controlled thread waits for something the scheduler does not know."""


_local = threading.local()


def me():
    return getattr(_local, "ct", None)


def point():
    t = me()
    if t is not None:
        t.sched.point(t)


class CoopLock:
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _who(self):
        return me() or _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        t = me()
        who = self._who()
        if t is not None:
            t.sched.point(t)
        if self.owner is not None and not (self.reentrant and self.owner == who):
            if not blocking:
                return False
            if t is not None:
                while self.owner is not None:
                    t.sched.block(t, lambda: self.owner is None)
            else:
                end = time.monotonic() + (timeout if timeout >= 0 else 20)
                while self.owner is not None:
                    if time.monotonic() > end:
                        if timeout >= 0:
                            return False
                        raise HangError("a lock is never released")
                    time.sleep(0.001)
        self.owner = who
        self.count += 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != self._who()):
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
        t = me()
        if t is not None and sys.exc_info()[0] is not Abort:
            t.sched.point(t)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == self._who()


class CoopRLock(CoopLock):
    reentrant = True


def _factory(native, coop):
    def make(*a, **kw):
        if sys._getframe(1).f_code.co_filename.startswith(PKG):
            return coop()
        return native(*a, **kw)

    return make


def _vp_s():
    t = getattr(_local, "ct", None)
    if t is not None:
        t.sched.point(t)


def _vp_e(v):
    t = getattr(_local, "ct", None)
    if t is not None and t.sched.fine:
        t.sched.point(t)
    return v


class Instrument(ast.NodeTransformer):
    """Adds the scheduling points inside functions; nothing else changes."""

    depth = 0

    def fn(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list] if self.depth else node.decorator_list
        self.depth += 1
        body = node.body
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            doc, body = body[:1], body[1:]
        node.body = doc + self.block(body)
        self.depth -= 1
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = fn

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = d
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def block(self, stmts):
        out = []
        for st in stmts:
            if not isinstance(st, (ast.Global, ast.Nonlocal)):
                out.append(ast.copy_location(ast.Expr(ast.Call(ast.Name("_vp_s", ast.Load()), [], [])), st))
            out.append(self.visit(st))
        return out

    def visit(self, node):
        if self.depth and isinstance(node, ast.stmt) and not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for f in ("body", "orelse", "finalbody"):
                b = getattr(node, f, None)
                if isinstance(b, list):
                    setattr(node, f, self.block(b))
            for h in getattr(node, "handlers", []):
                h.body = self.block(h.body)
            for c in getattr(node, "cases", []):
                c.body = self.block(c.body)
                if c.guard is not None:
                    c.guard = self.visit(c.guard)
            for name, val in ast.iter_fields(node):
                if name in ("body", "orelse", "finalbody", "handlers", "cases", "annotation"):
                    continue
                if isinstance(val, list):
                    setattr(node, name, [self.visit(x) if isinstance(x, ast.AST) else x for x in val])
                elif isinstance(val, ast.AST):
                    setattr(node, name, self.visit(val))
            return node
        return super().visit(node)

    def wrap(self, node):
        self.generic_visit(node)
        if not self.depth or not isinstance(getattr(node, "ctx", None) or ast.Load(), ast.Load):
            return node
        return ast.copy_location(ast.Call(ast.Name("_vp_e", ast.Load()), [node], []), node)

    visit_Attribute = visit_Subscript = visit_Call = wrap

    def visit_comprehension(self, node):
        self.generic_visit(node)
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.fix_missing_locations(Instrument().visit(ast.parse(data, path)))
        return compile(tree, path, "exec", dont_inherit=True, optimize=_optimize)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "expression" and not name.startswith("expression."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is not None and spec.origin and spec.origin.endswith(".py"):
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    """Before the package is imported: its locks and its steps become known to the scheduler."""
    import builtins

    threading.Lock = _factory(_lock, CoopLock)
    threading.RLock = _factory(_rlock, CoopRLock)
    builtins._vp_s, builtins._vp_e = _vp_s, _vp_e
    sys.meta_path.insert(0, _Finder())


def explore(make, *, bound=2, fine=False, max_runs=100000, deadline=None, limit=30, lines=False):
    """make(sched) sets up the threads and returns a function that is called at the end (with the schedule) for the result.

    Yields (result, schedule).  Depth first over the decisions.
    """
    prefix = []
    runs = 0
    while True:
        s = Sched(prefix, bound, fine, lines=lines)
        finish = make(s)
        try:
            s.run(limit)
        except NativeBlock:
            return  # waits for something the scheduler does not know: not explored
        runs += 1
        yield finish(s), [c for c, _ in s.decisions]
        if runs >= max_runs or (deadline and time.time() > deadline):
            return
        d = s.decisions
        i = len(d) - 1
        while i >= 0 and d[i][0] + 1 >= d[i][1]:
            i -= 1
        if i < 0:
            return
        prefix = [c for c, _ in d[:i]] + [d[i][0] + 1]


def together(fns, *, bound=2, max_runs=300):
    """Calls of functions of the package (imported as it is) by as many threads: yields the results for every schedule of their lines."""

    def make(sched):
        out = [["unfinished"] for _ in fns]

        def thread(i, f):
            def run():
                out[i] = f()

            return run

        for i, f in enumerate(fns):
            sched.spawn(f"t{i}", thread(i, f))

        def finish(s):
            return [["raised", t.err] if t.err else o for t, o in zip(s.threads, out)]

        return finish

    yield from explore(make, bound=bound, max_runs=max_runs, limit=8, lines=True)


class Log:
    """A log per controlled thread."""

    def __init__(self):
        self.by = {}

    def append(self, e):
        self.by.setdefault(me(), []).append(e)

    def take(self):
        return self.by.pop(me(), [])


class Choices:
    """Depth first enumeration of the choices made by a deterministic run."""

    def __init__(self, prefix=(), rng=None):
        self.prefix, self.made, self.rng = prefix, [], rng

    def __call__(self, n):
        if n <= 1:
            return 0
        i = len(self.made)
        c = self.prefix[i] if i < len(self.prefix) else (self.rng.randrange(n) if self.rng else 0)
        self.made.append((c, n))
        return c

    def next(self):
        d = self.made
        i = len(d) - 1
        while i >= 0 and d[i][0] + 1 >= d[i][1]:
            i -= 1
        return None if i < 0 else Choices([c for c, _ in d[:i]] + [d[i][0] + 1])


def all_choices(run, max_runs=100000):
    ch = Choices()
    n = 0
    while ch is not None and n < max_runs:
        yield run(ch)
        n += 1
        ch = ch.next()


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        self.loop.vp_select(timeout)
        return []

    def get_map(self):
        return {}

    def close(self):
        pass


class DetLoop(asyncio.BaseEventLoop):
    """An event loop with virtual time; it never blocks natively.

    In a controlled thread waiting means letting other threads run.  When nothing can happen any more `on_idle` is called;
    it returns whether it made something happen.
    """

    def __init__(self):
        super().__init__()
        self._selector = _Selector(self)
        self.vnow = 0.0
        self.woken = False
        self.on_idle = None
        self.cpoint = False
        self.idle_rounds = 0
        self.stuck = False
        self.errors = []
        self.mine = []
        self.set_exception_handler(lambda _, c: self.errors.append(c.get("message")))

    def time(self):
        return self.vnow

    def create_task(self, coro, **kw):
        t = super().create_task(coro, **kw)
        self.mine.append(weakref.ref(t))
        return t

    def open_tasks(self):
        ts = [t for t in (r() for r in self.mine) if t is not None and not t.done()]
        self.mine = [weakref.ref(t) for t in ts]
        return ts

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        self.woken = True

    def _others(self, t):
        return [] if t is None else [x for x in t.sched.threads if x is not t and (x.state == "ready" or (x.state == "blocked" and x.pred()))]

    def vp_select(self, timeout):
        t = me()
        if timeout == 0:
            if self.cpoint:
                point()
            return
        if t is not None and not self.woken and self._others(t):
            t.sched.block(t, lambda: self.woken or not self._others(t))
        if self.woken:
            self.woken = False
            return
        # nobody else can go on
        if self._scheduled:
            self.vnow = max(self.vnow, self._scheduled[0]._when)
            return
        self.idle_rounds += 1
        if self.idle_rounds > 1000 or self.on_idle is None or not self.on_idle():
            self.stuck = True
            self.stop()


def run_loop(main, cpoint=False):
    """Run the coroutine function main(loop) in a fresh deterministic loop; returns (result, loop)."""
    loop = DetLoop()
    loop.cpoint = cpoint
    asyncio.set_event_loop(loop)
    try:
        task = loop.create_task(main(loop))
        task.add_done_callback(lambda _: loop.stop())
        loop.run_forever()
        if not task.done():
            for x in loop.open_tasks():
                x.cancel()
            loop._ready.append(asyncio.events.Handle(loop.stop, (), loop))
            loop.run_forever()
            return None, loop
        for x in loop.open_tasks():
            x.cancel()
        for _ in range(20):
            if not loop.open_tasks():
                break
            loop.call_soon(loop.stop)
            loop.run_forever()
        return task.result(), loop
    finally:
        asyncio.set_event_loop(None)
        loop.close()

