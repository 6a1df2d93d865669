"""Printed forms: every small value, long and infinite ones; printing is a query (Print.tla)."""
import io

from expression import Failure, Success
from expression.collections import Seq, TypedArray, seq
from harness import terms
from harness.core import watchdog
from harness.replay import StoreDriver, pairs, replay_cases
from harness.terms import dec, enc

from .c01 import GEN
from .union_types import One, Tri


class Pr:
    """str and repr differ; nothing else may be asked of it."""

    def __init__(self, i):
        self.i = i

    def _no(self, *a):
        raise AssertionError("a printed value was inspected")

    __bool__ = __len__ = __iter__ = __eq__ = __lt__ = _no
    __hash__ = None

    def __str__(self):
        return f"s{self.i}"

    def __repr__(self):
        return f"r{self.i}"

    def vp_enc(self):
        return ["pr", self.i]


class Counted:
    """A repeatable source that counts what is taken from it."""

    def __init__(self, n):
        self.n, self.most = n, 0

    def __iter__(self):
        i = 0
        while self.n is None or i < self.n:
            self.most = max(self.most, i + 1)
            yield i
            i += 1


def counted(n):
    c = Counted(n)
    s = Seq(c)
    s.vp_count, s.vp_n = c, n
    return s


def union(t):
    return {"Tri": Tri, "One": One}[t[1]](**{t[2]: dec(t[3])})


terms.DEC.update({"pr": lambda t: terms.intern(Pr, t[1]), "suc": lambda t: Success(dec(t[1])), "fail": lambda t: Failure(dec(t[1])), "un": union,
                  "upto": lambda t: counted(t[1]), "nats": lambda t: counted(None)})


def my_enc(v):
    if isinstance(v, Tri | One):
        return ["un", type(v).__name__, v.tag, enc(getattr(v, v.tag))]
    if isinstance(v, Seq) and hasattr(v, "vp_n"):
        return ["nats"] if v.vp_n is None else ["upto", v.vp_n]
    if type(v) is type(Success(1)):
        return ["suc", enc(v.ok)] if v.tag == "ok" else ["fail", enc(v.error)]
    return None


def printed(x):
    f = io.StringIO()
    print(x, end="", file=f)
    return f.getvalue()


def twice(f):
    """Printing a second time gives the same text, and a Seq was asked for no more than was shown plus one."""

    def go(x):
        a = f(x)
        b = f(x)
        c = getattr(x, "vp_count", None)
        if c is not None and c.most > (101 if c.n is None else min(c.n, 101)):
            return f"asked for {c.most} elements"
        return a if a == b else ("first", a, "then", b)

    return go


FORMS = {"str": [("str", twice(str)), ("format", twice("{}".format)), ("f-string", twice(lambda x: f"{x}")), ("%s", twice(lambda x: "%s" % (x,))), ("print", twice(printed))],
         "repr": [("repr", twice(repr)), ("!r", twice(lambda x: f"{x!r}")), ("in a list", twice(lambda x: str([x])[1:-1]))]}


def value(rng, depth=3):
    x = rng.random()
    leaf = lambda: rng.choice([["none"], ["int", rng.randint(-5, 10**6)], ["bool", True], ["str", rng.choice(["", "a", "x; y", ", ", "[", "Some 1", "\\n"])], ["pr", rng.randint(1, 9)],
                               ["nothing"], ["flt", "1.5"], ["tup", [["int", 1], ["pr", 2]]]])
    if depth == 0 or x < 0.15:
        return leaf()
    if x < 0.55:
        return [rng.choice(["some", "ok", "error", "suc", "fail"]), value(rng, depth - 1)]
    n = rng.choice([0, 1, 2, 3, 5, 8] + ([40, 99, 100, 101, 130] if depth == 3 else []))
    k = rng.choice(["block", "arr", "seq", "map"])
    if k == "map":
        keys = rng.sample(range(-20, 200), n)
        ks = [["int", j] for j in sorted(keys)] if rng.random() < 0.5 else [["str", s] for s in sorted(f"k{j}" for j in keys)]
        return ["map", [[key, value(rng, 0)] for key in ks]]
    return [k, [value(rng, depth - 1 if n < 6 else 0) for _ in range(n)]]


def gen(rng, tags):
    i = rng.randrange(len(tags))
    k = tags[i][0]
    if k in ("block", "arr", "seq", "map", "un") and rng.random() < 0.4:
        return "repr", [("reg", i)]
    return "str", [("reg", i)]


def lit(rng):
    while True:
        t = value(rng)
        if t[0] not in ("none", "int", "bool", "str", "pr", "flt", "tup"):
            return t


def typed(ctx):
    """Arrays over every storage print their numbers; pipelines of unbounded sequences print their beginning."""
    ctx.phase("code:printing typed arrays")
    from expression.collections.array import TypeCode

    ev = []
    for tc in TypeCode:
        for n in (0, 1, 3, 200):
            a = TypedArray([i % 100 for i in range(n)], tc)
            fl = tc in (TypeCode.Float, TypeCode.Double)
            t = ["arr", [["flt", f"{float(i % 100)!r}"] if fl else ["int", i % 100] for i in range(n)]]
            for f in (str, repr):
                ev += [{"ev": "reset"}, {"ev": "call", "op": "str", "form": f"{tc} {f.__name__}", "args": [t], "ret": ["str", f(a)], "calls": []}]
    for n in (1001, 1500, 3000) if ctx.quick else (1001, 5000, 10001, 30000):
        ints = [["int", i] for i in range(n)]
        for t in (["block", ints], ["arr", ints], ["seq", ints[:500]], ["map", [[["int", i], ["int", i]] for i in range(n)]]):
            for op, f in (("str", str), ("repr", repr)):
                ev += [{"ev": "reset"}, {"ev": "call", "op": op, "form": f"long {f.__name__}", "args": [t], "ret": ["str", f(dec(t))], "calls": []}]
    deep = ["int", 1]
    for i in range(60):
        deep = [("some", "ok", "block", "error", "seq", "fail")[i % 6], [deep] if i % 6 in (2, 4) else deep]
    ev += [{"ev": "reset"}, {"ev": "call", "op": "str", "form": "deep", "args": [deep], "ret": ["str", str(dec(deep))], "calls": []}]
    ev += [{"ev": "reset"}, {"ev": "call", "op": "str", "form": "long text", "args": [["some", ["str", "x" * 5000]]], "ret": ["str", str(dec(["some", ["str", "x" * 5000]]))], "calls": []}]
    for s in (seq.init_infinite(lambda i: i), Seq(seq.init_infinite(lambda i: i)).map(lambda x: x), Seq.of_iterable(seq.init_infinite(lambda i: i)).filter(lambda x: True)):
        if isinstance(s, Seq):
            with watchdog(20, "printing an infinite sequence"):
                ev += [{"ev": "reset"}, {"ev": "call", "op": "str", "form": "infinite", "args": [["nats"]], "ret": ["str", str(s)], "calls": []}]
    from harness.replay import validate_store

    validate_store(ctx, "PrintTrace", ev, "printed form")


def check(ctx):
    terms.ENC_HOOK = my_enc
    r = ctx.tlc("PrintGen", GEN, workers=8)
    replay_cases(ctx, r.items, FORMS, label="printed forms", opaque=False)
    pairs(ctx, r.items, FORMS, label="printing")
    ctx.phase("code:printing histories")
    drv = StoreDriver(ctx, FORMS, gen, lit, opaque=False)
    for _ in range(60 if ctx.quick else 2000):
        drv.history(12, 40, proj_every=10)
    drv.validate("PrintTrace", "printed form")
    typed(ctx)
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("repr of Option, Result and Try is not prescribed; values inside print themselves")
