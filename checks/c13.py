"""AsyncSeq: elements (AsyncSeqGen.tla), demand and interleaving (SeqLazy.tla)."""
from expression.collections import asyncseq
from expression.collections.asyncseq import AsyncSeq
from harness.core import watchdog
from harness.replay import StoreDriver, replay_cases, sweep
from harness.terms import Fn, HangError, dec, enc

from .async_forms import FORMS, ASource, build_method, drive
from .c12 import CFG, counting_fn
from .large import large
from .list_gen import seq_case

GEN = "CONSTANT Depth = 1\nCONSTANT Size = %d\nSPECIFICATION Spec\nINVARIANT Emit\nPROPERTY Persistent\nCHECK_DEADLOCK FALSE\n"
STAGES = {"map", "skip", "take", "choose", "collect", "append", "filter", "scan"}


def supported(it):
    return all(st[0] in STAGES for st in it["pipe"])


class Pending:
    """One pull in progress."""

    def __init__(self, ait):
        self.coro = ait.__anext__()
        self.result = None
        self.step()

    def step(self):
        if self.result is None:
            try:
                self.coro.send(None)
            except StopIteration as e:
                self.result = enc(e.value)
            except StopAsyncIteration:
                self.result = ["str", "stop"]

    def finish(self):
        for _ in range(10000):
            if self.result is not None:
                return self.result
            self.step()
        raise HangError("pull does not end")


def counting_aseqs(fn, other):
    def f(x):
        async def inner():
            for y in fn(x):
                other.n += 1
                yield y

        return inner()

    return f


def build(src, it, counts, style, others):
    x = src
    for k, (name, arg) in enumerate(it["pipe"]):
        a = dec(arg)
        if isinstance(a, Fn):
            a = counting_fn(a, k, counts)
        if name == "append":
            others[k].xs = a
            x = asyncseq.append(others[k])(x)
            continue
        args = [counting_aseqs(a, others[k]) if name == "collect" else a] + ([0] if name == "scan" else [])
        if style == "module" and name in ("map", "filter", "choose", "collect"):
            x = getattr(asyncseq, name)(*args)(x)
        else:
            x = drive(build_method(x, name, args))
    return AsyncSeq(x) if not isinstance(x, AsyncSeq) else x


def run_case(it, style, infinite, nit):
    xs = [dec(x) for x in it["src"]]
    runs = {}
    counts = [0] * len(it["pipe"])
    srcs = []
    others = [ASource([], 1) for _ in it["pipe"]]

    def total():
        return sum(s.n for s in srcs)

    for i in range(1, nit + 1):
        srcs.append(ASource(xs, 2, infinite))
        runs[i] = build(srcs[-1], it, counts, style, others).__aiter__()
    if total() or any(counts) or any(o.n for o in others):
        return "building the pipeline consumed something", {"source": total(), "calls": counts}
    if nit == 1:
        for k, (out, need) in enumerate(zip(it["outs"], it["need"])):
            if infinite and out == ["str", "stop"] and not any(s[0] == "take" for s in it["pipe"]):
                return None
            got = Pending(runs[1]).finish()
            if infinite and total() > len(xs):
                return None if need["src"] >= len(xs) else ("more source elements consumed than needed", {"step": k + 1, "consumed": total(), "need": need["src"]})
            if got != out:
                return "wrong element", {"step": k + 1, "expected": out, "got": got}
            if total() > need["src"] or any(c > n for c, n in zip(counts, need["calls"])):
                return "more consumed than needed", {"step": k + 1, "consumed": total(), "calls": counts, "need": need}
            if any(o.n > n for o, n in zip(others, need["other"])):
                return "more elements of a second source consumed than needed", {"step": k + 1, "consumed": [o.n for o in others], "need": need["other"]}
        return None
    # several sequences with overlapping pulls: a pull of one is suspended while others advance
    pending, got = {}, {i: [] for i in runs}
    want = {i: [o for j, o in zip(it["sched"], it["outs"]) if j == i] for i in runs}
    for i in it["sched"]:
        if i in pending:
            got[i].append(pending.pop(i).finish())
        pending[i] = Pending(runs[i])
    for i, p in pending.items():
        got[i].append(p.finish())
    if got != want:
        return "interleaved sequences disturb each other", {"expected": want, "got": got}
    if total() > it["need"][-1]["src"]:
        return "more source elements consumed than needed", {"consumed": total(), "need": it["need"][-1]}
    return None


def replay(ctx, items, infinite, nit, label):
    ctx.phase(f"code:{label}")
    n = 0
    for it in items:
        if not supported(it):
            continue
        for style in ("method", "module"):
            try:
                with watchdog(20, f"{it['pipe']} {style}"):
                    bad = run_case(it, style, infinite, nit)
            except HangError:
                bad = ("the sequence does not make progress", {})
            except Exception as e:  # noqa: BLE001
                bad = ("the sequence raised", {"error": repr(e)})
            n += 1
            if bad:
                ctx.violation(bad[0], {"pipeline": it["pipe"], "source": it["src"], "style": style, "schedule": it["sched"], **bad[1]})
    ctx.add(traces_validated_against_impl=n)


def head_demand(ctx):
    ctx.phase("code:head")
    for gap in (0, 1):
        s = ASource([5], gap, infinite=True)
        with watchdog(20, "head of an infinite sequence"):
            v = drive(AsyncSeq(s).head())
        if v != 5 or s.n != 1:
            ctx.violation("head consumed more than one element", {"value": v, "consumed": s.n})


def check(ctx):
    q = ctx.quick
    r = ctx.tlc("AsyncSeqGen", GEN % (3 if q else 4), workers=8)
    replay_cases(ctx, r.items, FORMS, label="async seq transitions")
    sweep(ctx, r.items, FORMS, label="async seq transitions, every opaque value", per_op=12 if ctx.quick else 10**6)
    ctx.phase("code:async seq operations over arbitrary elements")
    ops = [o for o in FORMS if o not in ("empty", "range1", "range2", "range3")]
    drv = StoreDriver(ctx, FORMS, lambda rng, tags: seq_case(rng, ops), None)
    for _ in range(40 if q else 1000):
        drv.history(0, 40, 40)
    drv.validate("AsyncSeqTrace", "async seq operation")
    large(ctx, FORMS, "AsyncSeqTrace", ops, "list", (10007,) if q else (1025, 4099, 10007, 33000), "async seq operations")
    for src in ("SrcA", "SrcE") + (() if q else ("SrcB",)):
        r = ctx.tlc("SeqLazyMC", CFG % (src, 2 if q else 3, 7, 1, "FALSE"), workers=8)
        replay(ctx, r.items, False, 1, f"demand {src}")
    r = ctx.tlc("SeqLazyMC", CFG % ("SrcL", 2 if q else 3, 3, 1, "FALSE"), workers=8)
    replay(ctx, r.items, True, 1, "demand on an infinite source")
    r = ctx.tlc("SeqLazyMC", CFG % ("SrcB", 2, 5 if q else 6, 2, "FALSE"), workers=8)
    replay(ctx, r.items, False, 2, "interleaved sequences")
    head_demand(ctx)
    ctx.cov["exhaustive"] = True
