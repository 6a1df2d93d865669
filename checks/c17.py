"""Cancellation: every interleaving of small programs on the real sources, each history judged by Cancel.tla."""
import functools
import json
import zlib

from expression.system import CancellationToken, CancellationTokenSource, ObjectDisposedException
from harness import coop
from harness.replay import accept

MC = "CONSTANTS Ops = {1, 2, 3, 4%s}\nSPECIFICATION Spec\nINVARIANT AtMostOnce\nINVARIANT NeverAfterDisposal\nINVARIANT NoneLost\nPROPERTY Sticky\nCHECK_DEADLOCK FALSE\n"
GEN = "CONSTANTS Threads = %d\n MaxOps = %d\n MaxTotal = %d\n Kinds = {%s}\n MaxInit = %d\n Behaviours = {%s}\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


class Oops(Exception):
    pass


class Owner:
    """Its bound method is the callback; nobody else keeps it."""

    def __init__(self, fn):
        self.fn = fn

    def fire(self):
        return self.fn()


class Callable_:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self):
        return self.fn()


class Same(Callable_):
    """False, not hashable, and equal to everything."""

    __hash__ = None

    def __eq__(self, o):
        return True

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Args(Callable_):
    """Takes optional arguments it must not be given."""

    def __call__(self, *a, **k):
        if a or k:
            raise AssertionError("the callback was called with arguments")
        return self.fn()


KINDS = [lambda f: f, lambda f: Owner(f).fire, Callable_, Same, functools.partial, Args, lambda f: (lambda: f()), lambda f: classmethod(lambda c: f()).__get__(None, Owner)]
ANSWERS = [None, True, False, 0, "", NotImplemented, ..., StopIteration(), ObjectDisposedException(), Exception]


class Run:
    def __init__(self, prog):
        self.prog = prog
        self.kind = zlib.crc32(json.dumps(prog).encode())
        self.h = []
        self.ops = self.regs = self.fns = 0
        self.src = CancellationTokenSource()
        self.tokens = [self.src.token, self.src.token]
        self.stack = {}   # thread -> cancellations under way
        self.handles = {}  # registration -> disposable
        self.same = None

    def ev(self, **kw):
        self.h.append(kw)

    def op(self):
        self.ops += 1
        return self.ops

    def fn(self, beh):
        self.fns += 1
        f = self.fns

        def callback():
            t = coop.me()
            o = self.stack[t][-1] if self.stack.get(t) else 0
            self.ev(e="fb", o=o, f=f)
            coop.point()
            if beh == "reg":
                self.register("ok")
            elif beh == "self":
                self.unregister(k)
            elif beh == "next":
                self.unregister(k + 1)
            elif beh == "prev":
                self.unregister(k - 1)
            elif beh == "cancel":
                self.cancel()
            elif beh in ("h-reg", "h-self", "h-read"):  # what another thread does meanwhile does not wait for this callback
                t.sched.helper("helper", {"h-reg": lambda: self.register("ok"), "h-self": lambda: self.unregister(k), "h-read": lambda: self.read("q")}[beh])
            elif beh == "read":
                self.read("q")
                self.read("h")
            coop.point()
            self.ev(e="fe", o=o, f=f)
            if beh == "raise":
                raise Oops
            return ANSWERS[(self.kind // 16 + f) % len(ANSWERS)]

        callback = KINDS[(self.kind + f) % len(KINDS)](callback)
        k = self.regs + 1
        return f, callback

    def register(self, beh, tok=None):
        if beh == "same" and self.same:
            f, cb = self.same
        else:
            f, cb = self.fn(beh)
            self.same = self.same or (f, cb)
        self.regs += 1
        k = self.regs
        o = self.op()
        self.ev(e="rb", o=o, k=k, f=f)
        try:
            self.handles[k] = (tok or self.tokens[k % 2]).register(cb)
            r = "ok"
        except ObjectDisposedException:
            r = "refused"
        except Exception as e:  # noqa: BLE001
            r = repr(e)
        self.ev(e="re", o=o, r=r)
        return k

    def unregister(self, k):
        d = self.handles.get(k)
        if d is None:
            return
        o = self.op()
        self.ev(e="ub", o=o, k=k)
        try:
            d.dispose()
            r = "ok"
        except Exception as e:  # noqa: BLE001
            r = repr(e)
        self.ev(e="ue", o=o, r=r)

    def cancel(self, how="c", o=None):
        o = o or self.op()
        t = coop.me()
        self.ev(e="xb", o=o)
        self.stack.setdefault(t, []).append(o)
        try:
            if how == "c":
                self.src.cancel()
            elif how == "d":
                self.src.dispose()
            else:
                self.src.__exit__(None, None, None)
            r = "ok"
        except Exception as e:  # noqa: BLE001
            r = repr(e)
        finally:
            self.stack[t].pop()
        self.ev(e="xe", o=o, r=r)

    def read(self, kind):
        o = self.op()
        self.ev(e="qb", o=o)
        try:
            if kind == "q":
                r = {True: "yes", False: "no"}[self.src.is_cancellation_requested]
            elif kind == "t":
                r = {True: "yes", False: "no"}[self.src.token.is_cancellation_requested]
            elif kind == "k":
                r = {True: "yes", False: "no"}[self.tokens[0].is_cancellation_requested]
            elif kind == "h":
                self.tokens[1].throw_if_cancellation_requested()
                r = "no"
            else:
                x = self.src.__enter__()
                r = "no" if x is self.src else repr(x)
        except ObjectDisposedException:
            r = "yes" if kind in "hw" else "unexpected refusal"
        except Exception as e:  # noqa: BLE001
            r = repr(e)
        self.ev(e="qe", o=o, r=r)
        return r

    def none(self):
        n = CancellationToken.none()
        r = "ok"
        try:
            d = n.register(lambda: self.ev(e="fb", o=0, f=0))
            n.throw_if_cancellation_requested()
            if n.is_cancellation_requested or n.can_be_canceled or not self.tokens[0].can_be_canceled:
                r = "none token can be cancelled"
            d.dispose()
            d.dispose()
        except Exception as e:  # noqa: BLE001
            r = repr(e)
        self.ev(e="none", r=r)

    def do(self, kind, mine):
        if kind in ("r", "rr", "rs"):
            mine.append(self.register({"r": "ok", "rr": "raise", "rs": "same"}[kind]))
        elif kind == "u1":
            self.unregister(1)
        elif kind == "u2":
            self.unregister(2)
        elif kind == "um" and mine:
            self.unregister(mine[-1])
        elif kind in ("c", "d"):
            self.cancel(kind)
        elif kind == "w":
            if self.read("w") == "no":
                self.cancel("w")
        elif kind in ("q", "t", "k", "h"):
            self.read(kind)
        elif kind == "n":
            self.none()


def threads(prog, sched):
    r = Run(prog)
    for b in prog["init"]:
        r.register(b)

    def thread(ops):
        def run():
            mine = []
            for k in ops:
                r.do(k, mine)

        return run

    for i, ops in enumerate(prog["threads"]):
        sched.spawn(f"t{i}", thread(ops))

    def finish(s):
        if s.deadlock:
            r.ev(e="deadlock", threads=s.deadlock)
        for t in s.threads:
            if t.err:
                r.ev(e="error", err=t.err)
        if not s.deadlock:
            r.read("q")
            r.read("k")
        return {"h": r.h, "ops": max(1, r.ops), "prog": prog}

    return finish


def job(a):
    prog, bound, fine, cap = a
    seen, n = {}, 0
    for h, sch in coop.explore(lambda s: threads(prog, s), bound=bound, fine=fine, max_runs=cap):
        n += 1
        seen.setdefault(json.dumps(h["h"]), {**h, "schedule": sch})
    return n, list(seen.values())


def q(xs):
    return ", ".join(f'"{x}"' for x in xs)


ALL = "ok raise reg self next prev cancel read same h-reg h-self h-read".split()


def gather(ctx, job, jobs, what):
    ctx.phase(f"code:{what}")
    hs, n = {}, 0
    for k, xs in ctx.parallel(job, jobs):
        n += k
        for h in xs:
            hs.setdefault(json.dumps(h["h"]), h)
    ctx.add(schedules=n, programs=len(jobs))
    hs = list(hs.values())
    for i in range(0, len(hs), 20000):
        accept(ctx, "CancelTrace", hs[i:i + 20000], f"a history ({what}) is no behaviour of the specification", timeout=3000)


def check(ctx):
    ctx.tlc("CancelMC", MC % ("" if ctx.quick else ", 5"), workers=8, timeout=6000)
    # one thread: all sequences of operations and all combinations of callback behaviours
    seq = []
    seq += ctx.tlc("CancelGen", GEN % (1, 3, 3, q("r u1 u2 um c w t k h n rs".split()), 1, q(ALL)), workers=4).items
    seq += ctx.tlc("CancelGen", GEN % (1, 1, 1, q(["c", "d", "w"]), 3 if ctx.quick else 4, q(ALL)), workers=4).items
    seq += ctx.tlc("CancelGen", GEN % (1, 2, 2, q("r rr u1 u2 c d".split()), 2, q(ALL)), workers=4).items
    rng = ctx.rng
    kinds = "r r rr rs u1 u2 um c d w q t k h n".split()
    for _ in range(1500 if ctx.quick else 30000):
        seq.append({"init": [rng.choice(ALL) for _ in range(rng.randint(0, 6))], "threads": [[rng.choice(kinds) for _ in range(rng.randint(1, 12))]]})
    gather(ctx, job, [(p, 0, False, 1) for p in seq], "sequential use")
    # threads
    jobs = []
    cap = 4000 if ctx.quick else 200000
    for gen in [(2, 2, 3, q("r u1 um c q".split()), 1, q(["ok", "raise"])), (2, 1, 2, q("r u1 u2 c d w k h".split()), 2, q("ok raise self reg cancel next".split())),
                (3, 1, 3, q("r u1 c q".split()), 1, q(["ok"]))]:
        if not ctx.quick:
            gen = (gen[0], gen[1] + (gen[0] == 2), gen[2] + 1, *gen[3:])
        progs = ctx.tlc("CancelGen", GEN % gen, workers=4).items
        if ctx.quick and len(progs) > 450:
            progs = ctx.rng.sample(progs, 450)
        for p in progs:
            jobs.append((p, 2 if ctx.quick else 3, False, cap))
            jobs.append((p, 1 if ctx.quick else 2, True, cap))
    small = [{"init": i, "threads": t} for i in ([], ["ok"], ["ok", "ok"]) for t in ([["r"], ["c"]], [["c"], ["c"]], [["r"], ["r"]], [["u1"], ["c"]], [["r", "um"], ["c"]], [["r"], ["r"], ["c"]], [["u1"], ["r"], ["c"]])]
    jobs += [(p, 2 if ctx.quick else 3, True, 5 * cap) for p in small]
    gather(ctx, job, jobs, "threads")
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("all schedules with at most 2 preemptions between statements (1 to 2 between expressions) of the package; a callback whose registration is disposed while the cancellation is calling callbacks may be called or not")
