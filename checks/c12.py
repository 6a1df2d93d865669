"""Demand-driven Seq pipelines (spec/SeqLazy.tla)."""
import itertools

from expression import pipe
from expression.collections import Seq, seq
from harness.core import watchdog
from harness.terms import CALLS, HangError, Fn, dec, enc

CFG = """CONSTANTS
 Src <- %s
 MaxStages = %d
 MaxPulls = %d
 NIter = %d
 Repeatable = %s
SPECIFICATION Spec
INVARIANTS Emit Sane TakeBound AppendOrder
CHECK_DEADLOCK FALSE
"""


class Source:
    """A repeatable source that counts the elements it delivers."""

    def __init__(self, xs, infinite=False):
        self.xs, self.n, self.opened, self.infinite = xs, 0, 0, infinite

    def __iter__(self):
        self.opened += 1
        for x in self.xs:
            self.n += 1
            yield x
        if self.infinite:
            for x in itertools.count(1000):
                self.n += 1
                yield x


class Others(Source):
    """Several sequences counted together."""

    def also(self, xs):
        outer = self

        class One:
            def __iter__(self):
                for x in xs:
                    outer.n += 1
                    yield x

        return One()


class Fluent:
    @staticmethod
    def build(src, stages):
        x = Seq(src)
        for st, arg in stages:
            x = getattr(x if isinstance(x, Seq) else Seq(x), st)(*arg)
        return x


class Piped:
    @staticmethod
    def build(src, stages):
        fs = []
        for st, arg in stages:
            if st == "pairwise":
                fs.append(seq.pairwise)
            elif st == "zip":
                # seq.zip(a)(b) pairs a with b
                fs.append(lambda s, o=arg[0]: seq.zip(s)(o))
            else:
                fs.append(getattr(seq, st)(*arg))
        return pipe(src, *fs)


class XPipe(Piped):
    @staticmethod
    def build(src, stages):
        x = Seq(src)
        for st in stages:
            y = Piped.build(x, [st])
            x = y if isinstance(y, Seq) else Seq(y)
        return x


STYLES = {"fluent": Fluent, "piped": Piped, "x.pipe": XPipe}


def counting_fn(fn, k, counts):
    def f(*a):
        counts[k] += 1
        return fn.impl(*a)

    return f


def counting_seqs(fn, src):
    """Callback of collect: its sequences count the elements they deliver."""
    def f(*a):
        return src.also(fn(*a))

    return f


def run_case(ctx, it, style, kind):
    """Replay one schedule; returns a description of what is wrong, or None."""
    xs = [dec(x) for x in it["src"]]
    counts = [0] * len(it["pipe"])
    stages = []
    others = [Others([]) for _ in it["pipe"]]
    for k, (name, arg) in enumerate(it["pipe"]):
        a = [dec(arg)] if arg != ["none"] else []
        if a and isinstance(a[0], Fn):
            a = [counting_fn(a[0], k, counts)]
            if name == "collect":
                a = [counting_seqs(a[0], others[k])]
        elif name in ("append", "zip"):
            others[k].xs = a[0]
            a = [others[k]]
        if name == "scan":
            a.append(0)
        stages.append((name, a))
    infinite = kind == "infinite"
    src = Source(xs, infinite)
    given = src if kind in ("repeatable", "infinite") else iter(src)
    p = STYLES[style].build(given, stages)
    if src.n or any(counts) or any(o.n for o in others):
        return "building the pipeline consumed something", {"source": src.n, "calls": counts}
    its = {}
    base_src = 0
    for k, (i, out, need) in enumerate(zip(it["sched"], it["outs"], it["need"])):
        if infinite and out == ["str", "stop"] and not any(s[0] == "take" for s in it["pipe"]):
            return None
        if i not in its:
            its[i] = iter(p)
        try:
            got = enc(next(its[i]))
        except StopIteration:
            got = ["str", "stop"]
        if infinite and (src.n > len(xs)):
            # the finite model does not speak about this demand
            if need["src"] < len(xs):
                return "more source elements consumed than needed", {"step": k + 1, "consumed": src.n, "need": need["src"]}
            return None
        if got != out:
            return "wrong element", {"step": k + 1, "iterator": i, "expected": out, "got": got}
        if src.n > need["src"]:
            return "more source elements consumed than needed", {"step": k + 1, "consumed": src.n, "need": need["src"]}
        for c, n in zip(counts, need["calls"]):
            if c > n:
                return "more callback calls than needed", {"step": k + 1, "calls": counts, "need": need["calls"]}
        if any(o.n > n for o, n in zip(others, need["other"])):
            return "more elements of a second source consumed than needed", {"step": k + 1, "consumed": [o.n for o in others], "need": need["other"]}
    return None


def replay(ctx, items, kinds, label):
    ctx.phase(f"code:{label}")
    n = 0
    for it in items:
        for style in STYLES:
            for kind in kinds:
                try:
                    with watchdog(20, f"{it['pipe']} {style} {kind}"):
                        bad = run_case(ctx, it, style, kind)
                except HangError:
                    bad = ("the pipeline does not make progress", {})
                except Exception as e:  # noqa: BLE001
                    bad = ("the pipeline raised", {"error": repr(e)})
                n += 1
                if bad:
                    ctx.violation(bad[0], {"pipeline": it["pipe"], "source": it["src"], "kind": kind, "style": style, "schedule": it["sched"], **bad[1]})
    ctx.add(traces_validated_against_impl=n)
    if items:
        ctx.sample(items[len(items) // 2])


def terminals(ctx):
    """head, try_find_index, try_pick stop at their answer; unfold, delay and init_infinite are lazy and minimal."""
    ctx.phase("code:terminals")
    r = ctx.tlc("SeqTermMC", "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", workers=2)
    for it in r.items:
        for kind in ("list", "infinite"):
            for style in ("module", "method"):
                src = Source([dec(x) for x in it["src"]], kind == "infinite")
                count = [0]
                arg = [counting_fn(dec(it["fn"]), 0, count)] if it["fn"] != ["none"] else []
                if kind == "infinite" and it["need"] > len(it["src"]):
                    continue
                try:
                    with watchdog(20, str(it)):
                        s = Seq(src) if style == "method" else src
                        f = getattr(s, it["op"]) if style == "method" else None
                        ret = f(*arg) if style == "method" else (getattr(seq, it["op"])(*arg)(s) if arg else getattr(seq, it["op"])(s))
                        got = enc(ret)
                except HangError:
                    got = ["hang"]
                except ValueError:
                    got = ["raise", "ValueError"]
                need = min(it["need"], len(it["src"]))
                if got != it["ret"] or src.n > need or count[0] > need:
                    ctx.violation("terminal operation: wrong answer or consumed more than needed",
                                  {**it, "kind": kind, "style": style, "got": got, "consumed": src.n, "calls": count[0]})
                ctx.add(traces_validated_against_impl=1)


def sources(ctx):
    """Sequences generated by a callback: nothing at build, at most k calls for k elements."""
    ctx.phase("code:generated sources")

    def one(name, build, outs, bound, repeatable):
        calls = [0]
        p = build(calls)
        if calls[0]:
            ctx.violation("building the sequence called the callback", {"what": name})
        rounds = 3 if repeatable else 1
        for rnd in range(rounds):
            start = calls[0]
            got = []
            itr = iter(p)
            for k in range(1, len(outs) + 1):
                got.append(next(itr, "stop"))
                if calls[0] - start > bound(k):
                    ctx.violation("more callback calls than needed", {"what": name, "pulled": k, "calls": calls[0] - start})
            if got != outs:
                ctx.violation("wrong elements", {"what": name, "round": rnd, "got": got, "expected": outs})
            ctx.add(traces_validated_against_impl=1)

    from expression import Nothing, Some

    def gen(calls):
        def g(n):
            calls[0] += 1
            return Some((n, n + 1)) if n < 4 else Nothing

        return g

    def init(calls):
        def g(i):
            calls[0] += 1
            return i * 10

        return g

    def thunk(calls):
        def g():
            calls[0] += 1
            return [1, 2, 3]

        return g

    for st in range(5):
        want = list(range(st, 4)) + ["stop"]
        one("unfold", lambda c: seq.unfold(gen(c))(st), want, lambda k: k, False)
        one("Seq.unfold", lambda c: Seq.unfold(gen(c), st), want, lambda k: k, False)
    one("init_infinite", lambda c: seq.init_infinite(init(c)), [0, 10, 20, 30], lambda k: k, True)
    one("init_infinite|map|take", lambda c: pipe(seq.init_infinite(init(c)), seq.map(lambda x: x + 1), seq.take(2)), [1, 11, "stop"], lambda k: min(k, 2), True)
    one("infinite|choose|skip|take", lambda c: pipe(seq.infinite, seq.choose(lambda x: Some(x) if x % 3 == 0 else Nothing), seq.skip(1), seq.take(2)),
        [3, 6, "stop"], lambda k: 0, True)
    one("infinite fluent", lambda c: Seq(seq.infinite).filter(lambda x: x % 2 == 1).map(lambda x: x * 2).take(3), [2, 6, 10, "stop"], lambda k: 0, False)
    one("infinite collect", lambda c: Seq(seq.init_infinite(init(c))).collect(lambda x: Seq([x, x])).take(3), [0, 0, 10, "stop"], lambda k: (k + 1) // 2 if k <= 3 else 2, True)
    one("delay", lambda c: seq.delay(thunk(c)), [1, 2, 3, "stop"], lambda k: 1, True)
    one("delay|map", lambda c: pipe(seq.delay(thunk(c)), seq.map(lambda x: x)), [1, 2, 3, "stop"], lambda k: 1, True)
    one("Seq.delay", lambda c: Seq(Seq.delay(thunk(c))).take(2), [1, 2, "stop"], lambda k: 1, True)


def check(ctx):
    q = ctx.quick
    # one iterator, every stage, repeatable / one-shot / infinite sources
    for src in ("SrcA", "SrcE") + (() if q else ("SrcB",)):
        r = ctx.tlc("SeqLazyMC", CFG % (src, 2 if q else 3, 7, 1, "FALSE"), workers=8)
        replay(ctx, r.items, ("repeatable", "one-shot"), f"demand {src}")
    r = ctx.tlc("SeqLazyMC", CFG % ("SrcL", 2 if q else 3, 3, 1, "FALSE"), workers=8)
    replay(ctx, r.items, ("infinite",), "demand on an infinite source")
    # two iterators over one repeatable pipeline, every interleaving of their pulls
    r = ctx.tlc("SeqLazyMC", CFG % ("SrcB", 1 if q else 2, 7, 2, "TRUE"), workers=8)
    replay(ctx, r.items, ("repeatable",), "interleaved iterators")
    r = ctx.tlc("SeqLazyMC", CFG % ("SrcA", 2, 5, 2 if q else 3, "TRUE"), workers=8)
    replay(ctx, r.items, ("repeatable",), "interleaved iterators")
    terminals(ctx)
    sources(ctx)
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("the generator of seq.delay is run when its sequence is iterated (filter, scan and zip iterate their source when they are built)")
