"""Disposables: every interleaving of small programs on the real objects, each history judged by Disp.tla."""
import asyncio
import json
import zlib

from expression.core.error import EffectError
from expression.system import AsyncDisposable, Disposable, ObjectDisposedException, OperationCanceledError
from harness import coop, exotic
from harness.core import watchdog
from harness.replay import accept
from harness.terms import HangError

from .c17 import KINDS

MC = "CONSTANTS Ops = {1, 2, 3}\n Objs = {1, 2}\nSPECIFICATION Spec\nINVARIANT AtMostOnce\nINVARIANT OnlyClaimed\nINVARIANT ExactlyOnce\nPROPERTY Sticky\nCHECK_DEADLOCK FALSE\n"
GEN = "CONSTANTS Threads = %d\n MaxOps = %d\n MaxTotal = %d\n Kinds = {%s}\n Acts = {%s}\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


class Act(Exception):
    pass


class Body(Exception):
    pass


# what an action and the body of a context raise
ACTS = [Act, *exotic.GEN, ObjectDisposedException, OperationCanceledError]
BODIES = [Body, *exotic.GEN, *exotic.BASE, *exotic.STOP, ObjectDisposedException, OperationCanceledError, EffectError]


def raised(kinds, prog):
    k = kinds[prog.get("k", 0) % len(kinds)]
    return k() if k is ObjectDisposedException else k("x")


class Rec:
    def __init__(self):
        self.h = []
        self.ops = 0

    def new(self):
        self.ops += 1
        return self.ops

    def ev(self, **kw):
        self.h.append(kw)


def sync_threads(prog, sched):
    """Set up the threads of a program; returns the function that gives its history."""
    rec = Rec()
    act, body = raised(ACTS, prog), raised(BODIES, prog)
    stack = {}  # thread -> operations under way

    def action():
        me = coop.me()
        o = stack[me][-1] if stack.get(me) else 0
        rec.ev(e="ab", o=o, x=1)
        coop.point()
        r = "ok"
        if prog["act"] == "reent":
            dispose()
        elif prog["act"] == "raise":
            r = "raise"
        coop.point()
        rec.ev(e="ae", o=o, x=1, r=r)
        if r == "raise":
            raise act

    d = Disposable.create(KINDS[zlib.crc32(json.dumps(prog).encode()) % len(KINDS)](action))

    def timed(o, f):
        me = coop.me()
        stack.setdefault(me, []).append(o)
        try:
            f()
            return "ok"
        except Exception as e:  # noqa: BLE001
            return "raise" if e is act else repr(e)
        finally:
            stack[me].pop()

    def dispose():
        o = rec.new()
        rec.ev(e="db", o=o, xs=[1])
        rec.ev(e="de", o=o, r=timed(o, d.dispose))

    def within(fails):
        o = rec.new()
        rec.ev(e="nb", o=o, x=1)
        try:
            r = d.__enter__()
            res = "ok" if r is d else repr(r)
        except ObjectDisposedException:
            res = "disposed"
        except Exception as e:  # noqa: BLE001
            res = repr(e)
        rec.ev(e="ne", o=o, r=res)
        if res != "ok":
            return
        coop.point()
        o = rec.new()
        rec.ev(e="db", o=o, xs=[1])
        if fails:
            res = timed(o, lambda: (d.__exit__(type(body), body, None)) and 1 / 0)
        else:
            res = timed(o, lambda: d.__exit__(None, None, None) and 1 / 0)
        rec.ev(e="de", o=o, r=res)

    def thread(ops):
        def run():
            for k in ops:
                if k == "d":
                    dispose()
                else:
                    within(k == "wr")

        return run

    for i, ops in enumerate(prog["threads"]):
        sched.spawn(f"t{i}", thread(ops))

    def finish(s):
        if s.deadlock:
            rec.ev(e="deadlock", threads=s.deadlock)
        for t in s.threads:
            if t.err:
                rec.ev(e="error", err=t.err)
        return {"h": rec.h, "ops": max(1, rec.ops), "objs": 1, "prog": prog}

    return finish


def sync_job(a):
    prog, bound, fine, cap = a
    seen, n = {}, 0
    for h, sch in coop.explore(lambda s: sync_threads(prog, s), bound=bound, fine=fine, max_runs=cap):
        n += 1
        seen.setdefault(json.dumps(h["h"]), {**h, "schedule": sch})
    return n, list(seen.values())


# -- asynchronous ----------------------------------------------------------
def async_run(prog, ch):
    rec = Rec()
    act, body = raised(ACTS, prog), raised(BODIES, prog)
    gates = {}
    ops_of = {}

    async def main(loop):
        async def gate(cancellable=False):
            t = asyncio.current_task()
            gates[t] = (loop.create_future(), cancellable)
            try:
                await gates[t][0]
            finally:
                gates.pop(t, None)

        def member(x):
            async def action():
                t = asyncio.current_task()
                st = ops_of.get(t) or [(0, "d")]
                o, kind = st[-1]
                rec.ev(e="ab", o=o, x=x)
                r = "ok"
                try:
                    if prog["act"] == "reent":
                        await dispose(objs[x - 1], [x], "d")
                    if prog["act"] != "now":
                        await gate(kind == "x")
                    if prog["act"] == "raise":
                        r = "raise"
                        raise act
                except asyncio.CancelledError:
                    r = "cancelled"
                    raise
                finally:
                    rec.ev(e="ae", o=o, x=x, r=r)

            return AsyncDisposable.create(action)

        objs = [member(1), member(2)]
        comp = AsyncDisposable.composite(objs[1], AsyncDisposable.empty(), AsyncDisposable.composite(objs[0], objs[1]))

        async def timed(o, kind, aw):
            t = asyncio.current_task()
            ops_of.setdefault(t, []).append((o, kind))
            try:
                r = await aw
                return "ok" if not r else repr(r)
            except asyncio.CancelledError:
                if t.uncancel() or kind != "x":
                    raise
                return "cancelled"
            except Exception as e:  # noqa: BLE001
                return "raise" if e is act else repr(e)
            finally:
                ops_of[t].pop()

        async def dispose(d, xs, kind):
            o = rec.new()
            rec.ev(e="db", o=o, xs=xs)
            rec.ev(e="de", o=o, r=await timed(o, kind, d.dispose_async()))

        async def within(d, x, fails):
            o = rec.new()
            rec.ev(e="nb", o=o, x=x)
            try:
                r = await d.__aenter__()
                res = "ok" if r is d else repr(r)
            except ObjectDisposedException:
                res = "disposed"
            except Exception as e:  # noqa: BLE001
                res = repr(e)
            rec.ev(e="ne", o=o, r=res)
            if res != "ok":
                return
            await gate()
            o = rec.new()
            rec.ev(e="db", o=o, xs=[x])
            rec.ev(e="de", o=o, r=await timed(o, "w", d.__aexit__(type(body), body, None) if fails else d.__aexit__(None, None, None)))

        async def task(ops):
            for k in ops:
                await gate()
                if k in ("d", "x"):
                    await dispose(objs[0], [1], k)
                elif k == "c":
                    await dispose(comp, [2, 1, 2], "d")
                elif k == "y":  # leaving the context of a composite
                    o = rec.new()
                    async with comp:
                        rec.ev(e="db", o=o, xs=[2, 1, 2])
                        t = asyncio.current_task()
                        ops_of.setdefault(t, []).append((o, "d"))
                    ops_of[t].pop()
                    rec.ev(e="de", o=o, r="ok")
                elif k == "u":  # another object
                    await dispose(objs[1], [2], "d")
                else:
                    await within(objs[0], 1, k == "wr")

        tasks = [loop.create_task(task(ops)) for ops in prog["threads"]]
        while True:
            quiet = 0
            last = None
            while quiet < 6:
                await asyncio.sleep(0)
                now = (len(gates), len(rec.h), sum(t.done() for t in tasks))
                quiet = quiet + 1 if now == last else 0
                last = now
            opts = []
            for t in tasks:
                if t in gates:
                    opts.append((t, "go"))
                    if gates[t][1]:
                        opts.append((t, "cancel"))
            if not opts:
                break
            t, what = opts[ch(len(opts))]
            if what == "go":
                gates[t][0].set_result(None)
            else:
                t.cancel()
        for i, t in enumerate(tasks):
            if not t.done():
                rec.ev(e="stuck", task=i)
                t.cancel()
            elif t.cancelled() or t.exception():
                rec.ev(e="error", task=i, err="cancelled" if t.cancelled() else repr(t.exception()))

    coop.run_loop(main)
    return {"h": rec.h, "ops": max(1, rec.ops), "objs": 2, "prog": prog}


def async_job(a):
    prog, cap = a
    seen, n = {}, 0
    for h in coop.all_choices(lambda ch: async_run(prog, ch), cap):
        n += 1
        seen.setdefault(json.dumps(h["h"]), h)
    return n, list(seen.values())


def q(xs):
    return ", ".join(f'"{x}"' for x in xs)


def check(ctx):
    ctx.tlc("DispMC", MC if ctx.quick else MC.replace("{1, 2, 3}", "{1, 2, 3, 4}"), workers=8, timeout=3000)
    # threads
    jobs = []
    for gen in ([(1, 2, 2), (2, 2, 4), (3, 1, 3)] if ctx.quick else [(1, 3, 3), (2, 2, 4), (3, 2, 5), (4, 1, 4)]):
        r = ctx.tlc("DispGen", GEN % (*gen, q(["d", "w", "wr"]), q(["ok", "raise", "reent"])), workers=4)
        for p in r.items:
            p["k"] = len(jobs) // 2
            small = sum(map(len, p["threads"])) <= 2
            jobs.append((p, 2 if ctx.quick else 3, False, 3000 if ctx.quick else 100000))
            jobs.append((p, 2 if small or not ctx.quick else 1, True, 3000 if ctx.quick else 100000))
    # every kind of exception, in every use by one thread or task
    solo = ctx.tlc("DispGen", GEN % (1, 2, 2, q(["d", "w", "wr"]), q(["ok", "raise"])), workers=4).items
    solo = [{**p, "k": k} for p in solo if p["act"] == "raise" or "wr" in p["threads"][0] for k in range(len(BODIES))]
    jobs += [(p, 0, False, 10) for p in solo]
    ctx.phase("code:disposal from several threads")
    hs, n = gather(ctx, sync_job, jobs)
    ctx.add(schedules=n, programs=len(jobs))
    accept(ctx, "DispTrace", hs, "a history of concurrent disposals is no behaviour of the specification")
    # tasks
    jobs = []
    cap = 2000 if ctx.quick else 100000
    for gen, kinds, acts in [((1, 2, 2), "d w wr c x y u", "ok now raise reent"), ((2, 2, 3), "d w wr x", "ok now raise reent"),
                             ((3, 1, 3), "d w x", "ok now raise"), ((2, 1, 2), "c y u d", "ok now"), ((3, 1, 3), "c y u d", "ok now")]:
        r = ctx.tlc("DispGen", GEN % (*gen, q(kinds.split()), q(acts.split())), workers=4)
        jobs += [({**p, "k": j}, cap) for j, p in enumerate(r.items) if not (p["act"] == "raise" and set("cy") & {k for t in p["threads"] for k in t})]
    jobs += [(p, 100) for p in solo]
    ctx.phase("code:disposal from several tasks")
    hs, n = gather(ctx, async_job, jobs)
    ctx.add(schedules=n, programs=len(jobs))
    accept(ctx, "DispTrace", hs, "a history of disposals by tasks is no behaviour of the specification")
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("threads: all schedules with at most 2 preemptions between statements (1 to 2 between expressions) of the package; tasks: all orders of suspension points")


def gather(ctx, job, jobs):
    hs, n = {}, 0
    for k, xs in ctx.parallel(job, jobs):
        n += k
        for h in xs:
            hs.setdefault(json.dumps(h["h"]), h)
    return list(hs.values()), n


_ = (watchdog, HangError)
