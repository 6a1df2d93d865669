import asyncio
import sys

from expression import TailCall, tailrec, tailrec_async
from harness import coop, exotic, terms
from harness.core import watchdog
from harness.terms import dec, enc, enc_exc

GEN = "CONSTANT Size = %d\nSPECIFICATION Spec\nINVARIANT Emit\nPROPERTY ConstantStack\nCHECK_DEADLOCK FALSE\n"
EVAL = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
PAR = "CONSTANTS Tasks = %d\n Few = %s\nSPECIFICATION Spec\nINVARIANT Emit\nINVARIANT Independent\nCHECK_DEADLOCK FALSE\n"


SYNC = exotic.GEN + exotic.STOP + exotic.BASE[:2]


def boom():
    raise terms.make_boom()


def height():
    f, n = sys._getframe(1), 0
    while f:
        f, n = f.f_back, n + 1
    return n


class Machine:
    """The decorated functions of a program.  Each body logs its arguments, then does what the program says."""

    def __init__(self, P, log, tag=None, gate=None, implicit=False):
        """implicit: the label does not travel in the arguments, so that calls without any arguments occur"""
        self.P, self.log, self.tag, self.gate, self.implicit, self.next = P, log, tag, gate, implicit, 1
        self.level = 0
        self.heights = {}
        self.cache = {}
        self.fns = [None] * len(P)

    def sync(self):
        for i in range(len(self.P)):
            self.fns[i] = tailrec(self.body(i))
        return self

    def make_async(self):
        for i in range(len(self.P)):
            self.fns[i] = tailrec_async(self.abody(i))
        return self

    def enter(self, i, l, a, kw):
        h = height()
        lo, hi = self.heights.get(self.level, (h, h))
        self.heights[self.level] = (min(lo, h), max(hi, h))
        self.log.append([i + 1, [["int", l], *[enc(x) for x in a]], [[k, enc(v)] for k, v in kw.items()]])
        kw.clear()
        return self.P[i][l - 1]

    def go(self, l):
        """the arguments that carry the label"""
        self.next = l
        return () if self.implicit else (l,)

    def came(self, args):
        return (self.next, args) if self.implicit else (args[0], args[1:])

    def tail(self, i, l, ins, *a):
        if ins[0] == "tail":
            key = (i, l)
            to = self.go(ins[1])
            if key not in self.cache:  # one TailCall object, used every time
                self.cache[key] = TailCall(*to, *[dec(x) for x in ins[2]], **{k: dec(v) for k, v in ins[3]})
            return self.cache[key]
        return TailCall[int](*self.go(ins[3]), *a)

    def body(self, i):
        def body(*args, **kw):
            """Doc of body."""
            l, a = self.came(args)
            ins = self.enter(i, l, a, kw)
            op = ins[0]
            if op == "ret":
                return dec(ins[1])
            if op == "args":
                return (l, *a)
            if op == "raise":
                boom()
            if op == "tail":
                return self.tail(i, l, ins)
            self.level += 1
            try:
                v = self.fns[ins[1] - 1](*self.go(ins[2]))
            except terms.boom_class():
                if op != "trycall":
                    raise
                v = None
            finally:
                self.level -= 1
            return v if op == "callret" else self.tail(i, l, ins, v)

        return body

    def abody(self, i):
        async def body(*args, **kw):
            l, a = self.came(args)
            if self.gate:
                await self.gate()
            ins = self.enter(i, l, a, kw)
            op = ins[0]
            if op == "ret":
                return dec(ins[1])
            if op == "args":
                return (l, *a)
            if op == "raise":
                boom()
            if op == "tail":
                return self.tail(i, l, ins)
            self.level += 1
            try:
                v = await self.fns[ins[1] - 1](*self.go(ins[2]))
            except terms.boom_class():
                if op != "trycall":
                    raise
                v = None
            finally:
                self.level -= 1
            return v if op == "callret" else self.tail(i, l, ins, v)

        return body

    def grown(self):
        return any(hi - lo > 12 for lo, hi in self.heights.values())


def run_sync(P, f=1):
    log = []
    out = []
    for implicit in (False, True, True):
        m = Machine(P, log, implicit=implicit).sync() if len(out) < 2 else m
        del log[:]
        try:
            ret = enc(m.fns[f - 1](*m.go(1)))
        except terms.HangError:
            raise
        except BaseException as e:  # noqa: BLE001
            ret = enc_exc(e)
        out.append((ret, list(log), m.grown()))
    return out


async def run_async(P, f=1):
    log = []
    out = []
    for implicit in (False, True, True):
        m = Machine(P, log, gate=(lambda: asyncio.sleep(0)) if len(P) == 1 else None, implicit=implicit).make_async() if len(out) < 2 else m
        del log[:]
        try:
            ret = enc(await m.fns[f - 1](*m.go(1)))
        except terms.HangError:
            raise
        except BaseException as e:  # noqa: BLE001
            ret = enc_exc(e)
        out.append((ret, list(log), m.grown()))
    return out


def compare(ctx, how, P, want_ret, want_log, outs):
    for ret, log, grown in outs:
        ctx.add(traces_validated_against_impl=1)
        if ret != want_ret or log != want_log or grown:
            ctx.violation("the recursion differs from the specification" if not grown else "the stack grows with the number of steps",
                          {"how": how, "program": P if len(str(P)) < 3000 else str(P)[:3000], "expected": want_ret, "expected_log": want_log[:50], "got": ret, "log": log[:50]})


async def par(progs, sched):
    """Tasks suspended at the entry of each body; the schedule says which goes on."""
    log, gates, rets = [], {}, {}
    loop = asyncio.get_running_loop()

    def gate(c):
        def g():
            gates[c] = loop.create_future()
            return gates[c]

        return g

    class Log(list):
        def __init__(self, c):
            self.c = c

        def append(self, e):
            log.append([self.c, e])

    async def call(c, P):
        m = Machine(P, Log(c), gate=gate(c)).make_async()
        try:
            rets[c] = enc(await m.fns[0](1))
        except asyncio.CancelledError:
            raise
        except BaseException as e:  # noqa: BLE001
            rets[c] = enc_exc(e)

    tasks = {c + 1: asyncio.ensure_future(call(c + 1, P)) for c, P in enumerate(progs)}

    async def settle(c):
        for _ in range(200):
            if c in rets or c in gates:
                return
            await asyncio.sleep(0)
        raise terms.HangError(f"recursion {c} neither ends nor suspends")

    try:
        for c in tasks:
            await settle(c)
        for c in sched:
            fut = gates.pop(c, None)
            if fut is None:
                break
            fut.set_result(None)
            await settle(c)
        return [rets.get(c) or ["unfinished"] for c in sorted(tasks)], log
    finally:
        for t in tasks.values():
            t.cancel()
        await asyncio.gather(*tasks.values(), return_exceptions=True)


async def par_shared(progs, sched):
    """The same with one decorated function for all tasks (argument 0 says which task)."""
    log, gates, rets = [], {}, {}
    loop = asyncio.get_running_loop()

    @tailrec_async
    async def fn(c, l, *a, **kw):
        gates[c] = loop.create_future()
        await gates[c]
        log.append([c, [1, [["int", l], *[enc(x) for x in a]], [[k, enc(v)] for k, v in kw.items()]]])
        ins = progs[c - 1][0][l - 1]
        op = ins[0]
        if op == "ret":
            return dec(ins[1])
        if op == "args":
            return (l, *a)
        if op == "raise":
            boom()
        if op == "tail":
            return TailCall(c, ins[1], *[dec(x) for x in ins[2]], **{k: dec(v) for k, v in ins[3]})
        try:
            v = await fn(c, ins[2])
        except terms.boom_class():
            if op != "trycall":
                raise
            v = None
        return v if op == "callret" else TailCall(c, ins[3], v)

    async def call(c):
        try:
            rets[c] = enc(await fn(c, 1))
        except asyncio.CancelledError:
            raise
        except BaseException as e:  # noqa: BLE001
            rets[c] = enc_exc(e)

    tasks = {c + 1: asyncio.ensure_future(call(c + 1)) for c in range(len(progs))}

    async def settle(c):
        for _ in range(200):
            if c in rets or c in gates:
                return
            await asyncio.sleep(0)
        raise terms.HangError(f"recursion {c} neither ends nor suspends")

    try:
        for c in tasks:
            await settle(c)
        for c in sched:
            fut = gates.pop(c, None)
            if fut is None:
                break
            fut.set_result(None)
            await settle(c)
        return [rets.get(c) or ["unfinished"] for c in sorted(tasks)], log
    finally:
        for t in tasks.values():
            t.cancel()
        await asyncio.gather(*tasks.values(), return_exceptions=True)


def thread_calls(progs):
    """Calls of one decorated function by several threads (argument 0 says which)."""
    log = coop.Log()

    @tailrec
    def fn(c, l, *a, **kw):
        log.append([1, [["int", l], *[enc(x) for x in a]], [[k, enc(v)] for k, v in kw.items()]])
        ins = progs[c][0][l - 1]
        op = ins[0]
        if op == "ret":
            return dec(ins[1])
        if op == "args":
            return (l, *a)
        if op == "raise":
            boom()
        if op == "tail":
            return TailCall(c, ins[1], *[dec(x) for x in ins[2]], **{k: dec(v) for k, v in ins[3]})
        try:
            v = fn(c, ins[2])
        except terms.boom_class():
            if op != "trycall":
                raise
            v = None
        return v if op == "callret" else TailCall(c, ins[3], v)

    def call(c):
        def run():
            try:
                ret = enc(fn(c, 1))
            except coop.Abort:
                raise
            except BaseException as e:  # noqa: BLE001
                ret = enc_exc(e)
            return [ret, log.take()]

        return run

    return [call(c) for c in range(len(progs))]


def thread_job(a):
    progs, want, cap = a
    bad, n = None, 0
    for got, sched in coop.together(thread_calls(progs), max_runs=cap):
        n += 1
        if got != want:
            bad = bad or {"programs": progs, "expected": want, "got": got, "schedule": sched}
    return n, bad


def rnd_prog(rng, nf, n):
    val = lambda: rng.choice([["none"], ["int", rng.randint(0, 9)], ["str", ""], ["tup", []], ["fn", "f"], ["nothing"], ["weird", 1], ["weird", 2], ["list", []], ["bool", False]])  # noqa: E731
    P = []
    for _ in range(nf):
        ins = []
        for l in range(1, n + 1):
            later = range(l + 1, min(n, l + 3) + 1)
            x = rng.random()
            if not later or x < 0.08:
                ins.append(rng.choice([["ret", val()], ["ret", val()], ["args"], ["args"], ["raise"]]))
            elif x < 0.7:
                ins.append(["tail", rng.choice(later), [val() for _ in range(rng.randint(0, 3))], [[k, val()] for k in rng.sample(["a", "b", "z"], rng.randint(0, 2))]])
            elif x < 0.95:
                m = rng.choice(later)
                ins.append([rng.choice(["call", "trycall"]), rng.randint(1, nf), m, rng.choice(later)])
            else:
                ins.append(["callret", rng.randint(1, nf), rng.choice(later)])
        P.append(ins)
    return P


def chain(n, last):
    """n tail calls in a row; every hundredth one carries other arguments."""
    return [[["tail", k + 1, [["int", k]] if k % 100 else [["none"], ["str", ""]], [["a", ["int", k]]] if k % 7 == 0 else []] for k in range(1, n)] + [last]]


def check(ctx):
    r = ctx.tlc("TailRecGen", GEN % (3 if ctx.quick else 4), workers=8, timeout=2000)
    ctx.phase("code:tail recursive programs")

    async def amain(items):
        for j, it in enumerate(items):
            terms.rotate(j, classes=[*exotic.GEN, StopAsyncIteration])
            with watchdog(20, f"async program {it['P']}"):
                compare(ctx, "async", it["P"], it["ret"], it["log"], await run_async(it["P"], it.get("f", 1)))

    for j, it in enumerate(r.items):
        terms.rotate(j, classes=SYNC)
        with watchdog(20, f"program {it['P']}"):
            compare(ctx, "sync", it["P"], it["ret"], it["log"], run_sync(it["P"]))
    asyncio.run(amain(r.items))
    ctx.add(replayed_transitions=len(r.items))
    ctx.sample(r.items[len(r.items) // 2])

    # random programs with two or three mutually recursive functions, and long chains
    cases = [{"P": rnd_prog(ctx.rng, ctx.rng.choice([1, 2, 3]), ctx.rng.randint(3, 14)), "f": 1} for _ in range(1500 if ctx.quick else 30000)]
    cases += [{"P": [[["tail", k + 1, [], []] for k in range(1, n)] + [last]], "f": 1} for n in (2, 3, 4, 5, 9, 40) for last in (["ret", ["int", 1]], ["args"], ["raise"])]
    cases += [{"P": chain(n, last), "f": 1} for n in (30, 400, 2000) for last in (["ret", ["none"]], ["args"], ["raise"])]
    r = ctx.tlc("TailRecEval", EVAL, workers=8, files={"cases.ndjson": cases}, timeout=1500)
    items = [{**it, **cases[it["id"] - 1]} for it in r.items]
    ctx.phase("code:random tail recursive programs")
    for j, it in enumerate(items):
        terms.rotate(j, classes=SYNC)
        with watchdog(30, f"program {str(it['P'])[:500]}"):
            compare(ctx, "sync", it["P"], it["ret"], it["log"], run_sync(it["P"]))
    asyncio.run(amain(items))
    ctx.add(replayed_transitions=len(items))

    # interleavings of concurrent async recursions
    async def many(items):
        for k, it in enumerate(items):
            for how, f in (("own functions", par), ("one shared function", par_shared)):
                with watchdog(20, f"concurrent {it}"):
                    rets, log = await f(it["progs"], it["sched"])
                ctx.add(traces_validated_against_impl=1)
                if rets != it["rets"] or log != it["log"]:
                    ctx.violation("concurrent recursions differ from the specification", {**it, "how": how, "got": rets, "got_log": log})

    for tasks in (2, 3):
        r = ctx.tlc("TailRecPar", PAR % (tasks, str(tasks > 2 and ctx.quick).upper()), workers=8, timeout=2000)
        items = r.items
        cap = 4000 if ctx.quick else 60000
        if len(items) > cap:
            items = ctx.rng.sample(items, cap)
        ctx.phase("code:concurrent recursions")
        asyncio.run(many(items))
        ctx.add(schedules=len(items))

        # the same recursions by threads, switching between any two lines of the package
        jobs = {}
        for it in r.items:
            jobs.setdefault(str(it["progs"]), (it["progs"], [[ret, [e for c, e in it["log"] if c == k + 1]] for k, ret in enumerate(it["rets"])], 250 if ctx.quick else 5000))
        ctx.phase("code:recursions by threads")
        terms.rotate(None)
        for n, bad in ctx.parallel(thread_job, list(jobs.values())):
            ctx.add(schedules=n)
            if bad:
                ctx.violation("recursions run by several threads differ from the specification", bad)

    # depth: far beyond the recursion limit, in constant stack
    deep(ctx, 100_000 if ctx.quick else 1_000_000)
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("constant stack is observed as the interpreter's frame depth at the entry of each body (within 12 frames per nesting level)")


def deep(ctx, n):
    ctx.phase("code:deep recursion")
    hs = set()

    @tailrec
    def down(k, acc=0, *, step=1):
        hs.add(height())
        return acc if k == 0 else TailCall(k - 1, acc + step, step=step)

    @tailrec_async
    async def adown(k, acc=0, *, step=1):
        hs.add(height())
        return acc if k == 0 else TailCall(k - 1, acc + step, step=step)

    @tailrec
    def even(k):
        return True if k == 0 else TailCall(k - 2) if k > 1 else odd(k - 1)

    @tailrec
    def odd(k):
        return False if k == 0 else even(k - 1)

    for name, f, want in (("down", lambda: down(n, step=2), 2 * n), ("async", lambda: asyncio.run(adown(n, step=2)), 2 * n), ("even", lambda: even(n + 1), False)):
        hs.clear()
        try:
            with watchdog(120, f"deep {name}"):
                got = f()
        except Exception as e:  # noqa: BLE001
            got = repr(e)
        ctx.add(traces_validated_against_impl=1)
        if got != want or (hs and max(hs) - min(hs) > 12):
            ctx.violation("a deep recursion differs from the specification", {"how": name, "steps": n, "got": str(got)[:300], "stack": sorted(hs)[-3:]})
