"""Drives real mailboxes (event loop and posting threads) and records their histories for MailboxTrace.tla."""
import asyncio
import itertools
import json

from expression import MailboxProcessor
from expression.system import CancellationTokenSource
from harness import coop
from harness.core import watchdog
from harness.exotic import POOL, Agreeable
from harness.terms import dec, enc, rotate

VALUES = [["none"], ["int", 0], ["str", ""], ["bool", False], ["nothing"], ["some", ["none"]], ["list", []], ["int", 7], ["error", ["none"]], ["tup", []], ["weird", 1]]


def payloads(prog):
    """What is posted: objects of all sorts, or different objects that are all equal."""
    POOL.load()
    plain = [None, 0, "", False, (), [], 1, "m", True, dec(["nothing"]), dec(["some", ["none"]]), dec(["error", ["none"]])]
    xs = plain + POOL.items + POOL.tuples
    k = sum(map(ord, json.dumps(prog)))
    while k % 4 == 0:
        yield Agreeable() if k % 8 else [0]
    seen = set()
    for j in range(len(xs)):
        x = (plain if j % 2 == 0 and j < 2 * len(plain) else xs)[(k // 4 + j * 5) % (len(plain) if j % 2 == 0 and j < 2 * len(plain) else len(xs))]
        if id(x) not in seen:
            seen.add(id(x))
            yield x
    while True:
        yield object()


class Request:
    """A message that carries a reply channel."""

    def __init__(self, p, k, ch):
        self.p, self.k, self.ch = p, k, ch

    def __bool__(self):
        return False


class Drive:
    def __init__(self, prog):
        k = sum(map(ord, json.dumps(prog)))
        rotate(k if k % 3 else None)
        self.payloads = iter(list(itertools.islice(payloads(prog), 60)))
        self.sent = []       # (post, object) not yet received
        self.prog = prog
        self.h = []
        self.np = self.nr = self.nk = 0
        self.reqs = []       # (k, channel) in order of receipt
        self.tasks = {}      # receive -> task
        self.waits = {}
        self.futs = {}
        self.answered = 0
        self.held = prog.get("kind") in ("started", "slow", "timeout")
        self.threads_done = 0

    def ev(self, **kw):
        self.h.append(kw)

    # -- calls --------------------------------------------------------------
    def post(self, thread=None):
        self.np += 1
        p = self.np
        x = next(self.payloads)
        self.sent.append((p, x))
        self.ev(e="pb", p=p, m=p)
        try:
            self.mb.post(x)
        except Exception as e:  # noqa: BLE001
            self.ev(e="error", what=repr(e))
        self.ev(e="pe", p=p)

    async def receive(self, inbox, r):
        self.ev(e="rb", r=r)
        try:
            m = await inbox.receive()
        except asyncio.CancelledError:
            self.ev(e="re", r=r, o="cancelled")
            raise
        except Exception as e:  # noqa: BLE001
            self.ev(e="re", r=r, o="refused" if type(e) is Exception else repr(e))
            return None
        k = None
        if isinstance(m, Request):
            k = m.k
            self.reqs.append((k, m.ch))
            m = m.p
        else:
            i = next((i for i, s in enumerate(self.sent) if s[1] is m), None)
            if i is None:
                self.ev(e="error", what=f"received {m!r}, which is not among the messages posted and not yet received")
                return None
            m = self.sent.pop(i)[0]
        self.ev(e="re", r=r, o="msg", m=m)
        return m, k

    def request(self, early=None):
        self.np += 1
        self.nk += 1
        p, k = self.np, self.nk
        self.ev(e="pb", p=p, m=p)

        def build(ch):
            if early is not None:
                self.reply(k, ch, early)
            return Request(p, k, ch)

        try:
            self.futs[k] = self.mb.post_and_async_reply(build)
        except Exception as e:  # noqa: BLE001
            self.ev(e="error", what=repr(e))
        self.ev(e="pe", p=p)

    async def wait(self, k):
        self.ev(e="wb", k=k)
        try:
            v = await self.futs[k]
        except asyncio.CancelledError:
            self.ev(e="we", k=k, o="cancelled")
            return
        except Exception as e:  # noqa: BLE001
            self.ev(e="we", k=k, o=repr(e))
            return
        self.ev(e="we", k=k, o="val", v=json.dumps(enc(v)))

    def reply(self, k, ch, v):
        self.ev(e="rp", k=k, v=json.dumps(v))
        try:
            ch.reply(dec(v))
        except Exception as e:  # noqa: BLE001
            self.ev(e="error", what=repr(e))

    def cancel_token(self, far=False):
        self.ev(e="tb")
        try:
            self.src.cancel()
        except Exception as e:  # noqa: BLE001
            self.ev(e="error", what=repr(e))
        self.ev(e="te", far=far)

    # -- the loop's side ------------------------------------------------------
    async def body(self, inbox):
        """The consumer of a started mailbox."""
        slow = self.prog["kind"] == "slow"
        while True:
            self.nr += 1
            if self.prog["kind"] == "timeout":
                r = self.nr
                t = asyncio.ensure_future(self.receive(inbox, r))
                self.tasks[r] = t
                try:
                    x = await t
                except asyncio.CancelledError:
                    if asyncio.current_task().cancelling():
                        t.cancel()
                        raise
                    continue
            else:
                x = await self.receive(inbox, self.nr)
            if x is None:
                break
            if x[1] and self.prog.get("serve"):
                i = self.reqs.pop()
                self.reply(*i, VALUES[x[0] % len(VALUES)])
            if slow:
                await asyncio.sleep(0)

    async def main(self, loop):
        self.src = CancellationTokenSource()
        self.loop = loop
        kind = self.prog["kind"]
        tok = None if self.prog.get("notoken") else self.src.token
        if kind == "bare":
            self.mb = MailboxProcessor(tok)
        else:
            self.mb = MailboxProcessor.start(self.body, tok)
        self.ready = True
        waiter = None

        def on_idle():
            self.ev(e="quiet")
            w, self.idle_w = self.idle_w, None
            if w is not None:
                loop.call_soon(lambda: w.done() or w.set_result(None))
                return True
            return False

        self.idle_w = waiter
        loop.on_idle = on_idle

        async def idle():
            self.idle_w = loop.create_future()
            await self.idle_w

        turn = 0
        for c in self.prog["cmds"]:
            if c == "P":
                self.post()
            elif c == "R" and kind == "timeout":
                pass
            elif c == "R":
                self.nr += 1
                self.tasks[self.nr] = asyncio.ensure_future(self.receive(self.mb, self.nr))
            elif c == "C":
                live = [r for r, t in self.tasks.items() if not t.done()]
                if live:
                    self.ev(e="rc", r=live[-1])
                    self.tasks[live[-1]].cancel()
            elif c == "X":
                if not any(x["e"] == "tb" for x in self.h):
                    self.cancel_token()
            elif c == "T":
                await asyncio.sleep(0)
            elif c == "I":
                await idle()
            elif c == "Q":
                self.request(VALUES[turn % len(VALUES)] if self.prog.get("early") else None)
            elif c == "W":
                k = next((k for k in self.futs if k not in self.waits), None)
                if k:
                    self.waits[k] = asyncio.ensure_future(self.wait(k))
            elif c == "V":
                live = [k for k, t in self.waits.items() if not t.done()]
                if live and any(x["e"] == "wb" and x["k"] == live[-1] for x in self.h):
                    self.ev(e="wc", k=live[-1])
                    self.waits[live[-1]].cancel()
            elif c in "ABE":
                turn += 1
                v = VALUES[(turn * 3 + self.prog.get("vo", 0)) % len(VALUES)]
                if c == "E" and self.answered:
                    self.reply(*self.last, v)
                elif self.reqs:
                    self.last = self.reqs.pop(0 if c != "B" else -1)
                    self.answered += 1
                    self.reply(*self.last, v)
        await idle()
        if kind == "bare":  # drain
            for _ in range(self.np + 2):
                self.nr += 1
                t = self.tasks[self.nr] = asyncio.ensure_future(self.receive(self.mb, self.nr))
                await idle()
                if not t.done():
                    self.ev(e="rc", r=self.nr)
                    t.cancel()
                    await idle()
                    break
                if t.cancelled():
                    break
                if any(x for x in self.h if x["e"] == "re" and x["r"] == self.nr and x["o"] == "refused"):
                    live = [r for r, x in self.tasks.items() if not x.done()]
                    if not live:
                        break
                    self.ev(e="rc", r=live[-1])
                    self.tasks[live[-1]].cancel()
                    await idle()
        elif self.prog["kind"] == "timeout":
            await idle()
        self.ev(e="end")

    def run_loop(self):
        res, loop = coop.run_loop(self.main, cpoint=bool(self.prog.get("threads")))
        n = len(self.h)
        self.loop_errors = [e for e in loop.errors if e and e.startswith("Exception in callback")]
        for e in self.loop_errors:
            self.ev(e="error", what=e)
        return n

    def history(self):
        h = self.h
        end = next((i for i, x in enumerate(h) if x["e"] == "end"), None)
        h = [x for i, x in enumerate(h) if end is None or i <= end or x["e"] == "error"]
        if end is None:
            h.append({"e": "error", "what": "the driver did not come to its end"})
        return {"h": h, "posts": self.np, "recvs": max(1, self.nr), "reqs": self.nk, "held": self.held, "prog": self.prog}


def run_alone(prog):
    d = Drive(prog)
    d.run_loop()
    return d.history()


def alone_job(progs):
    out = []
    for p in progs:
        with watchdog(30, f"mailbox program {p}"):
            out.append(run_alone(p))
    return out


def threaded(prog, sched):
    d = Drive(prog)
    d.ready = False

    def poster(ops):
        def run():
            t = coop.me()
            if not d.ready:
                sched.block(t, lambda: d.ready)
            for c in ops:
                if c == "P":
                    d.post()
                elif c == "X":
                    d.cancel_token(True)

        return run

    sched.spawn("loop", d.run_loop)
    for i, ops in enumerate(prog["threads"]):
        sched.spawn(f"t{i}", poster(ops))

    def finish(s):
        if s.deadlock:
            d.ev(e="error", what=f"deadlock {s.deadlock}")
        for t in s.threads:
            if t.err:
                d.ev(e="error", what=t.err)
        return d.history()

    return finish


def thread_job(a):
    prog, bound, fine, cap = a
    seen, n = {}, 0
    for h, sch in coop.explore(lambda s: threaded(prog, s), bound=bound, fine=fine, max_runs=cap):
        n += 1
        seen.setdefault(json.dumps(h["h"]), {**h, "schedule": sch})
    return n, list(seen.values())


class Bulk:
    """Thousands of messages, or hundreds of requests, on one mailbox; judged by MailboxBulk.tla."""

    def __init__(self, prog):
        self.prog, self.h = prog, []
        self.answered = 0

    async def main(self, loop):
        import random

        rng = random.Random(self.prog["seed"])
        n, style = self.prog["n"], self.prog["style"]
        h = self.h
        chans = []
        gate = loop.create_future()

        async def body(inbox):
            if style in ("backlog", "requests"):
                await gate
            while True:
                m = await inbox.receive()
                m, ch = m if isinstance(m, tuple) else (m, None)
                h.append({"e": "r", "m": m})
                if ch is not None:
                    chans.append((m, ch))
                    if style == "served":
                        answer(*chans.pop())
                if style == "bursts" and rng.random() < 0.3:
                    await asyncio.sleep(0)

        def answer(k, ch):
            v = rng.randint(1, 10**6)
            h.append({"e": "a", "k": k, "v": v})
            self.answered += 1
            ch.reply(v)

        async def wait(k, fut):
            v = await fut
            h.append({"e": "w", "k": k, "v": v if type(v) is int else -1})

        mb = MailboxProcessor.start(body, None)
        i = 0
        waits = []
        while i < n:
            for _ in range(n if style in ("backlog", "requests") else rng.choice([1, 2, 5, 40, 300])):
                if i == n:
                    break
                i += 1
                h.append({"e": "p", "m": i})
                if style in ("requests", "served"):
                    fut = mb.post_and_async_reply(lambda ch, i=i: (i, ch))
                    waits.append(asyncio.ensure_future(wait(i, fut)))
                else:
                    mb.post(i)
            await asyncio.sleep(0)
        gate.set_result(None)
        done = loop.create_future()
        loop.on_idle = lambda: (not done.done()) and (loop.call_soon(lambda: done.done() or done.set_result(None)), True)[1]
        await done
        if style == "requests":
            rng.shuffle(chans)
            for k, (m, ch) in enumerate(chans):
                answer(m, ch)
                if k % 7 == 0:
                    self.answered -= 1
                    answer(m, ch)
            done = loop.create_future()
            await done
        h.append({"e": "end"})


def bulk_job(prog):
    b = Bulk(prog)
    with watchdog(120, f"mailbox program {prog}"):
        _, loop = coop.run_loop(b.main)
    for e in loop.errors:
        if e and e.startswith("Exception in callback"):
            b.h.append({"e": "error", "what": e})
    if not b.h or b.h[-1]["e"] != "end":
        b.h.append({"e": "error", "what": "the driver did not come to its end"})
    reqs = prog["n"] if prog["style"] in ("requests", "served") else 0
    return {"h": b.h, "reqs": reqs, "answered": b.answered, "prog": prog}
