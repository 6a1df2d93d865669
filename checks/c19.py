"""aiotools: started computations and continuations, all short programs and thread schedules; judged by Aio.tla and ContTrace.tla."""
import asyncio
import gc
import json
import warnings
import weakref

from expression.core import aiotools
from expression.system import CancellationToken, CancellationTokenSource, ObjectDisposedException, OperationCanceledError
from harness import coop, exotic
from harness.core import watchdog
from harness.replay import accept
from harness.terms import dec, enc, rotate

MC = "CONSTANTS N = %d\nSPECIFICATION Spec\nINVARIANT Once\nINVARIANT OnlyByToken\nCHECK_DEADLOCK FALSE\n"
GEN = "CONSTANTS N = %d\n MaxBody = %d\n Stms = {%s}\n Toks = {%s}\n Cmds = {%s}\n MaxCmds = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
CONT = "CONSTANTS MaxIn = %d\n MaxOut = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
VALUES = [["none"], ["int", 0], ["str", ""], ["bool", False], ["int", 3], ["nothing"], ["error", ["int", 1]], ["list", []], ["weird", 1]]


class Fail(Exception):
    pass


class Drive:
    """toks: per computation 1/2 the tokens, 0 none given, 9 the none token, 8 the first token cancelled beforehand."""

    def __init__(self, prog):
        self.prog = prog
        self.h = []
        self.gates = weakref.WeakValueDictionary()
        self.opened = set()
        self.ready = False

    def ev(self, **kw):
        self.h.append(kw)

    def comp(self, i, body):
        async def gate(n):
            f = self.loop.create_future()
            self.gates[(i, n)] = f
            if (i, n) in self.opened:
                f.set_result(None)
            await f

        async def run():
            self.ev(e="b", i=i)
            try:
                for n, s in enumerate(body, 1):
                    self.ev(e="at", i=i, n=n)
                    if s == "raise":
                        raise Fail
                    if s in ("g", "ig", "y"):
                        try:
                            await (asyncio.sleep(0) if s == "y" else gate(n))
                        except asyncio.CancelledError:
                            self.ev(e="cx", i=i, n=n)
                            if s != "ig":
                                raise
                        else:
                            self.ev(e="go", i=i, n=n)
            except Fail:
                self.ev(e="end", i=i, r="raise")
                raise
            except asyncio.CancelledError:
                self.ev(e="end", i=i, r="cancelled")
                raise
            self.ev(e="end", i=i, r="ok")
            return i

        return run()

    def start(self, i):
        body, t = self.prog["bodies"][i - 1], self.prog["toks"][i - 1]
        fn = aiotools.start_immediate if (i + len(body) + self.prog.get("alt", 0)) % 2 else aiotools.start
        c = self.comp(i, body)
        if self.prog.get("future") and i == 1:  # any awaitable may be started
            c = self.loop.create_task(c)
        ev = dict(i=i, body=body, t=t if t in (1, 2) else 0)
        # when the computation begins at once its events come after this one
        self.ev(e="st", **ev)
        k = len(self.h)
        try:
            if t == 0:
                r = fn(c) if i % 2 else fn(c, None)
            elif t == 9:
                r = fn(c, CancellationToken.none())
            else:
                r = fn(c, self.src[t - 1].token)
            if r is not None:
                self.ev(e="error", what=f"returned {r!r}")
        except ObjectDisposedException:
            # refused some time between the call and now; the token may have been cancelled meanwhile by another thread
            del self.h[k - 1]
            self.ev(e="sr", **ev)
        except Exception as e:  # noqa: BLE001
            self.ev(e="error", what=repr(e))

    def cancel(self, t, far=False):
        self.ev(e="xb", t=t, far=far)
        try:
            self.src[t - 1].cancel()
        except Exception as e:  # noqa: BLE001
            self.ev(e="error", what=repr(e))
        self.ev(e="xe", t=t)

    async def main(self, loop):
        self.loop = loop
        self.src = [CancellationTokenSource(), CancellationTokenSource()]
        self.ready = True
        idle_w = []

        def on_idle():
            self.ev(e="quiet")
            if idle_w:
                w = idle_w.pop()
                loop.call_soon(lambda: w.done() or w.set_result(None))
                return True
            return False

        loop.on_idle = on_idle

        async def idle():
            w = loop.create_future()
            idle_w.append(w)
            await w

        started = 0
        nxt = {}
        for c in self.prog["cmds"]:
            if c == "S":
                started += 1
                self.start(started)
            elif c in "123":
                i = int(c)
                ns = [n for n, s in enumerate(self.prog["bodies"][i - 1], 1) if s in ("g", "ig")]
                k = nxt.get(i, 0)
                if k < len(ns):
                    nxt[i] = k + 1
                    if self.prog.get("gc"):
                        gc.collect()
                    self.ev(e="op", i=i, n=ns[k])
                    if self.over(i):
                        self.h.pop()
                    else:
                        self.opened.add((i, ns[k]))
                        f = self.gates.get((i, ns[k]))
                        if f is not None and not f.done():
                            f.set_result(None)
                        f = None
            elif c in "XY":
                self.cancel(1 if c == "X" else 2)
            elif c == "T":
                await asyncio.sleep(0)
            elif c == "I":
                await idle()
        await idle()
        if self.prog.get("gc"):
            gc.collect()
            await idle()
        # everything that still waits at a gate must be able to go on
        for _ in range(8):
            todo = [(i, n) for (i, n), f in list(self.gates.items()) if not f.done()]
            f = None
            if not todo:
                break
            for i, n in todo:
                self.ev(e="op", i=i, n=n)
                self.opened.add((i, n))
                self.gates[(i, n)].set_result(None)
            await idle()
        waiting = {}
        for x in self.h:
            if x["e"] == "at" and self.prog["bodies"][x["i"] - 1][x["n"] - 1] in ("g", "ig"):
                waiting[x["i"]] = x["n"]
            elif x["e"] in ("go", "cx"):
                waiting.pop(x["i"], None)
        if waiting:
            self.ev(e="error", what=f"computations lost {sorted(waiting)}")
        self.finished = len(self.h)

    def over(self, i):
        """computation i has ended, or cannot begin any more"""
        return any(x["e"] in ("end", "sr") and x["i"] == i for x in self.h) or not any(x["e"] == "st" and x["i"] == i for x in self.h) \
            or self.cancelled_before(i)

    def cancelled_before(self, i):
        begun = any(x["e"] == "b" and x["i"] == i for x in self.h)
        return not begun and any(x["e"] == "xb" and x["t"] == self.prog["toks"][i - 1] for x in self.h)

    def run_loop(self):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _, loop = coop.run_loop(self.main, cpoint=bool(self.prog.get("threads")))
        self.errs = [e for e in loop.errors if e and e.startswith("Exception in callback")]

    def history(self):
        h = self.h[:getattr(self, "finished", None)]
        if not hasattr(self, "finished"):
            h.append({"e": "error", "what": "the driver did not come to its end"})
        h += [{"e": "error", "what": e} for e in getattr(self, "errs", [])]
        return {"h": h, "n": len(self.prog["bodies"]), "toks": 2, "prog": self.prog}


def alone_job(progs):
    out = {}
    for p in progs:
        with watchdog(30, f"program {p}"):
            d = Drive(p)
            d.run_loop()
            h = d.history()
            out.setdefault(json.dumps(h["h"]), h)
    return list(out.values())


def threaded(prog, sched):
    d = Drive(prog)

    def other(ops):
        def run():
            if not d.ready:
                sched.block(coop.me(), lambda: d.ready)
            for c in ops:
                d.cancel(1 if c == "X" else 2, far=True)

        return run

    sched.spawn("loop", d.run_loop)
    for i, ops in enumerate(prog["threads"]):
        sched.spawn(f"t{i}", other(ops))

    def finish(s):
        if s.deadlock:
            d.ev(e="error", what=f"deadlock {s.deadlock}")
        h = d.history()
        for t in s.threads:
            if t.err:
                h["h"].append({"e": "error", "what": t.err})
        return h

    return finish


def thread_job(a):
    prog, bound, fine, cap = a
    seen, n = {}, 0
    for h, sch in coop.explore(lambda s: threaded(prog, s), bound=bound, fine=fine, max_runs=cap):
        n += 1
        seen.setdefault(json.dumps(h["h"]), {**h, "schedule": sch})
    return n, list(seen.values())


# -- continuations ----------------------------------------------------------
KINDS = [Fail, *exotic.GEN]


def cont_run(prog):
    rotate(prog["id"] if prog["id"] % 3 else None)
    h = []
    ks = {}
    errs = {}

    async def main(loop):
        n = [0]
        cancelled = []

        def call(c):
            n[0] += 1
            v = VALUES[(n[0] * 2 + prog["id"]) % len(VALUES)]
            try:
                if c == "D":
                    h.append(dict(e="call", k="value", v=json.dumps(v)))
                    ks["D"](dec(v))
                elif c == "F":
                    e = errs[n[0]] = (KINDS[(n[0] + prog["id"]) % len(KINDS)])(n[0])
                    h.append(dict(e="call", k="error", v=str(n[0])))
                    ks["F"](e)
                else:
                    h.append(dict(e="call", k="cancel", v=""))
                    ks["C"](OperationCanceledError("x"))
            except Exception as e:  # noqa: BLE001
                h.append(dict(e="error", what=repr(e)))

        def callback(done, error, cancel):
            ks.update(D=done, F=error, C=cancel)
            for c in prog["ins"]:
                call(c)

        aw = aiotools.from_continuations(callback)
        idle_w = []

        def on_idle():
            h.append(dict(e="quiet"))
            if idle_w:
                w = idle_w.pop()
                loop.call_soon(lambda: w.done() or w.set_result(None))
                return True
            return False

        loop.on_idle = on_idle

        async def idle():
            w = loop.create_future()
            idle_w.append(w)
            await w

        async def wait(w):
            h.append(dict(e="wb", w=w))
            try:
                v = await aw
                h.append(dict(e="we", w=w, k="value", v=json.dumps(enc(v))))
            except asyncio.CancelledError:
                h.append(dict(e="we", w=w, k="cancel", v=""))
            except Exception as e:  # noqa: BLE001
                k = next((k for k in errs if errs[k] is e), None)
                h.append(dict(e="we", w=w, k="error", v=str(k)) if k else dict(e="error", what=repr(e)))

        ws = []
        for c in prog["outs"]:
            if c in "DFC":
                call(c)
            elif c == "W":
                ws.append(loop.create_task(wait(len(ws) + 1)))
            elif c == "V":
                if not ws[-1].done() and any(x["e"] == "wb" and x["w"] == len(ws) for x in h):
                    h.append(dict(e="wc", w=len(ws)))
                    ws[-1].cancel()
                    cancelled.append(1)
            elif c == "T":
                await asyncio.sleep(0)
            else:
                await idle()
        await idle()
        ws.append(loop.create_task(wait(3)))
        await idle()
        if aw.done() and not aw.cancelled():
            aw.exception()
        end.append(len(h))  # what the closing of the loop does is not part of the history

    end = []
    _, loop = coop.run_loop(main)
    h = h[:end[0]] if end else h + [dict(e="error", what="the driver did not come to its end")]
    for e in loop.errors:
        if e and e.startswith("Exception in callback"):
            h.append(dict(e="error", what=e))
    return {"h": h, "prog": prog}


def cont_job(progs):
    out = {}
    for p in progs:
        with watchdog(30, f"program {p}"):
            x = cont_run(p)
            out.setdefault(json.dumps(x["h"]), x)
    return list(out.values())


def q(xs):
    return ", ".join(f'"{x}"' for x in xs)


def spread(ctx, job, progs, module, what):
    ctx.phase(f"code:{what}")
    chunks = [progs[i:i + 200] for i in range(0, len(progs), 200)]
    hs = {}
    for xs in ctx.parallel(job, chunks):
        for h in xs:
            hs.setdefault(json.dumps(h["h"]), h)
    ctx.add(programs=len(progs), schedules=len(progs))
    judge(ctx, list(hs.values()), module, what)


def judge(ctx, hs, module, what):
    for i in range(0, len(hs), 25000):
        accept(ctx, module, hs[i:i + 25000], f"a history ({what}) is no behaviour of the specification", timeout=3000)


def check(ctx):
    quick = ctx.quick
    ctx.tlc("AioMC", MC % (2 if quick else 3), workers=8, timeout=6000)
    cap = 30000 if quick else 10**7

    def cut(xs):
        if len(xs) > cap:
            ctx.cov["sampled"] = True
            return ctx.rng.sample(xs, cap)
        return xs

    # continuations
    r = ctx.tlc("ContGen", CONT % (2, 5 if quick else 6), workers=8)
    spread(ctx, cont_job, [{**p, "id": i} for i, p in enumerate(cut(r.items))], "ContTrace", "continuations")

    # one computation, every body, token and command sequence
    def nums(ts):
        return ", ".join(map(str, ts))

    g = ctx.tlc("AioGen", GEN % (1, 3, q(["s", "g", "ig", "y", "raise"]), nums([0, 1, 9]), q("S1XTI"), 5 if quick else 6), workers=8, timeout=3000)
    spread(ctx, alone_job, cut(g.items), "AioTrace", "one computation")
    spread(ctx, alone_job, [{**p, "alt": 1} for p in cut(g.items)], "AioTrace", "one computation, the other start function")
    # two and three computations, shared and separate tokens, cancelled before the start too
    g = ctx.tlc("AioGen", GEN % (2, 2, q(["g", "s", "y"]), nums([0, 1, 2]), q("S12XI"), 6), workers=8, timeout=3000)
    spread(ctx, alone_job, cut(g.items), "AioTrace", "two computations")
    g = ctx.tlc("AioGen", GEN % (3, 1, q(["g", "ig"]), nums([0, 1]), q("S123XT"), 7), workers=8, timeout=3000)
    spread(ctx, alone_job, cut(g.items), "AioTrace", "three computations")
    # nobody else refers to the computation: it must not be lost
    g = [p for p in ctx.tlc("AioGen", GEN % (2, 2, q(["g", "y"]), nums([0, 9]), q("S12I"), 5), workers=8).items]
    g = ctx.rng.sample(g, min(len(g), 400 if quick else 5000))
    spread(ctx, alone_job, [{**p, "gc": True, "alt": i} for i, p in enumerate(g)], "AioTrace", "garbage collection")
    # tokens cancelled by other threads
    jobs = []
    tc = 1500 if quick else 100000
    for th in ([["X"]], [["X", "X"]], [["X"], ["X"]], [["X"], ["Y"]]):
        for bodies in ([["g", "s"]], [["s", "y", "g"]], [["ig", "g"]], [[], ["g"]], [["g"], ["y", "g"]]):
            for toks in ([1, 1], [1, 2], [0, 1]):
                for cmds in ("S", "SI", "SS", "SIS1"):
                    n = cmds.count("S")
                    if n > len(bodies):
                        continue
                    p = {"bodies": bodies[:n], "toks": toks[:n], "cmds": list(cmds), "threads": th, "alt": len(jobs)}
                    jobs.append((p, 2, False, tc))
                    jobs.append((p, 1, True, tc))
    ctx.phase("code:threads")
    hs = {}
    for n, xs in ctx.parallel(thread_job, jobs):
        ctx.add(schedules=n)
        for h in xs:
            hs.setdefault(json.dumps(h["h"]), h)
    judge(ctx, list(hs.values()), "AioTrace", "token cancelled by another thread")
    simple(ctx)
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("a computation whose gate opened before its token was cancelled may be cancelled there or at its next suspension point")


def simple(ctx):
    """The one-line functions, with virtual time for sleep."""
    ctx.phase("code:simple functions")
    hs = []
    for n, v in enumerate(VALUES + [["weird", 1]] * 80):
        rotate(n if n > len(VALUES) else None)
        for name, f in (("singleton", lambda: aiotools.singleton(dec(v))), ("from_result", lambda: aiotools.from_result(dec(v)))):
            got = None
            try:
                got = enc(aiotools.run_synchronously(f()))
            except Exception as e:  # noqa: BLE001
                got = repr(e)
            ctx.add(traces_validated_against_impl=1)
            if got != v:
                ctx.violation(f"{name} / run_synchronously", {"expected": v, "got": got})

        async def slow():
            await asyncio.sleep(0)
            return dec(v)

        x = KINDS[n % len(KINDS)]()

        async def bad():
            await asyncio.sleep(0)
            raise x

        if enc(aiotools.run_synchronously(slow())) != v:
            ctx.violation("run_synchronously does not return the result", v)
        try:
            aiotools.run_synchronously(bad())
            ctx.violation("run_synchronously swallows an exception", None)
        except Exception as e:  # noqa: BLE001
            if e is not x:
                ctx.violation("run_synchronously raises another exception", repr(e))
    if aiotools.run_synchronously(aiotools.empty()) is not None:
        ctx.violation("empty returns a value", None)

    def sleepers(ms):
        h = []

        async def main(loop):
            async def one(d):
                r = await aiotools.sleep(d)
                h.append({"e": "sleep", "d": d, "t": round(loop.time() * 1000)} if r is None else {"e": "error", "what": repr(r)})

            await asyncio.gather(*[one(d) for d in ms])

        coop.run_loop(main)
        return {"h": h, "n": 1, "toks": 1, "prog": ms}

    for _ in range(60):
        ms = [ctx.rng.choice([0, 1, 2, 3, 5, 10, 250, 999, 1000, 60000, ctx.rng.randint(1, 10**7)]) for _ in range(ctx.rng.randint(1, 5))]
        with watchdog(20, f"sleep {ms}"):
            x = sleepers(ms)
        if len(x["h"]) != len(ms):
            ctx.violation("a sleeper never woke", ms)
        hs.append(x)
    judge(ctx, hs, "AioTrace", "sleep")
