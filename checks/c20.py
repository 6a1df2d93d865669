import functools
import itertools

from expression import Result, pipe
from expression.collections import Block
from expression.extra import parser as P
from harness import coop
from harness.core import watchdog
from harness.terms import App, Fn, dec, enc, enc_exc

GEN = "CONSTANTS MaxLen = {n} Deep = {deep}\nSPECIFICATION Spec\nINVARIANT Lawful Emit\nCHECK_DEADLOCK FALSE\n"
EVAL = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def curried2(name):
    return lambda x: lambda y: Fn(name)(x, y)


MESSAGES = itertools.cycle(["no", "", "no more input", "0", "\n", "x" * 300])


def message():
    """The text of a failure means nothing."""
    return next(MESSAGES)


def choose(forms):
    return lambda sel: forms[sel % len(forms)]


BINDERS = {
    "b_same": lambda v: P.pstring(v) if type(v) is str else P.preturn(v),
    "b_pair": lambda v: P.preturn((v, v)),
    "b_fail": lambda v: P.fail(message()),
    "b_a": lambda v: P.pchar("a").map(Fn("f")),
    "b_many": lambda v: P.many(P.any_of("ab")),
}


def reentrant(p):
    def mapper(v):
        for other in ("", "ab", "ba(1", "12", "zz"):
            p.run((other, 0))
        p("aab")
        return v

    return p.map(mapper)


def rule(name):
    c, o = P.pchar, P.Parser.or_else
    if name == "paren":
        return P.choice(Block.of(P.between(c("("))(c(")"))(ref("paren")), P.pint))
    if name == "list":
        return P.choice(Block.of(P.pint, P.sep_by(ref("list"), c(",")).between(c("["), c("]"))))
    if name == "term":
        return o(P.lift2(curried2("f"))(ref("atom").then_ignore(c("+")))(ref("term")), ref("atom"))
    if name == "atom":
        return o(ref("paren2"), P.many1(P.any_of("ab")).map(Fn("g")))
    return c("(").ignore_then(ref("term").then_ignore(c(")")))


def ref(name):
    return P.preturn(None).bind(lambda _: RULES[name])


RULES = {n: rule(n) for n in ("paren", "list", "term", "atom", "paren2")}

# op -> constructions from (already built) components; every one of them has to behave alike
BUILD = {
    "pchar": [P.pchar, P.Parser.pchar],
    "any_of": [lambda cs: P.any_of("".join(cs)), lambda cs: P.Parser.any_of("".join(cs))],
    "digit": [lambda: P.parse_digit],
    "letter": [lambda: P.parse_letters],
    "lower": [lambda: P.parse_lowercase],
    "digits": [lambda: P.digits],
    "blank": [lambda: P.whitespace],
    "pint": [lambda: P.pint],
    "pfloat": [lambda: P.pfloat],
    "pstring": [lambda cs: P.pstring("".join(cs))],
    "preturn": [P.preturn],
    "fail": [lambda: P.fail(message()), lambda: P.Parser.fail(message())],
    "and_then": [lambda p, q: p.and_then(q), lambda p, q: P.and_then(q)(p), lambda p, q: pipe(p, P.and_then(q))],
    "then_ignore": [lambda p, q: p.then_ignore(q), lambda p, q: P.then_ignore(q)(p)],
    "ignore_then": [lambda p, q: p.ignore_then(q), lambda p, q: P.ignore_then(q)(p)],
    "between": [lambda o, c, p: p.between(o, c), lambda o, c, p: P.between(o)(c)(p), lambda o, c, p: pipe(p, P.between(o)(c))],
    "or_else": [lambda p, q: p.or_else(q), lambda p, q: P.or_else(p)(q)],
    "map": [lambda f, p: p.map(f), lambda f, p: P.map(f)(p)],
    "starmap": [lambda f, p: p.starmap(f), lambda f, p: P.starmap(f)(p)],
    "reent": [reentrant],
    "ignore": [lambda p: p.ignore(), P.ignore],
    "opt": [lambda p: p.opt(), P.opt],
    "lift2": [lambda f, p, q: P.lift2(curried2(f.name))(p)(q), lambda f, p, q: pipe(q, pipe(p, P.lift2(curried2(f.name))))],
    "apply": [lambda f, p, q: P.apply(p.map(curried2(f.name)), q)],
    "starts_with": [lambda p, q: P.starts_with(p)(q)],
    "bind": [lambda f, p: p.bind(f), lambda f, p: P.bind(f)(p)],
    "ref": [ref],
    "many": [P.many],
    "many1": [P.many1],
    "sep_by": [P.sep_by],
    "sep_by1": [P.sep_by1],
    "sequence": [lambda ps: P.sequence(Block.of_seq(ps))],
    "choice": [lambda ps: P.choice(Block.of_seq(ps))],
}


def freeze(p):
    return tuple(freeze(x) for x in p) if isinstance(p, list) else p


@functools.cache
def build(p, form):
    """The parser of a syntax tree; equal trees share one parser object (parsers are reusable)."""
    op, rest = p[0], p[1:]
    if op in ("pchar", "any_of", "pstring", "ref"):
        args = list(rest)
    elif op == "preturn":
        args = [dec(thaw(rest[0]))]
    elif op in ("map", "starmap", "lift2", "apply"):
        args = [Fn(rest[0]), *(build(q, form) for q in rest[1:])]
    elif op == "bind":
        args = [BINDERS[rest[0]], build(rest[1], form)]
    elif op in ("sequence", "choice"):
        args = [[build(q, form) for q in rest[0]]]
    else:
        args = [build(q, form) for q in rest]
    fs = BUILD[op]
    return fs[form % len(fs)](*args)


def thaw(p):
    return [thaw(x) for x in p] if isinstance(p, tuple) else p


def enc_val(v):
    """Integers and floats keep their digits."""
    if type(v) is int:
        s = str(abs(v))
        return ["dec", "-" if v < 0 else "", list(s)]
    if type(v) is float:
        return ["flt", repr(v)]
    if type(v) is tuple:
        return ["tup", [enc_val(x) for x in v]]
    if isinstance(v, Block):
        return ["block", [enc_val(x) for x in v]]
    if isinstance(v, App):
        return ["app", v.name, [enc_val(x) for x in v.args]]
    if type(v).__name__ == "Option":
        return ["some", enc_val(v.value)] if v.is_some() else ["nothing"]
    return enc(v)


def norm(t):
    """A specification value as enc_val would write it."""
    if isinstance(t, list):
        if t and t[0] == "int":
            return ["dec", "-" if t[1] < 0 else "", list(str(abs(t[1])))]
        if t and t[0] == "fltlit":
            return ["flt", repr(float("".join(t[1])))]
        return [norm(x) for x in t]
    return t


def run(p, s, i):
    try:
        r = p.run((s, i))
        if not isinstance(r, Result):
            return ["bad", repr(r)]
        if r.is_error():
            return ["fail"]
        v, (rest, pos) = r.ok
        if rest != s:
            return ["bad", "the input was changed", rest]
        return ["ok", enc_val(v), pos]
    except Exception as e:  # noqa: BLE001
        return enc_exc(e)


def call(p, s):
    try:
        r = p(s)
        return ["fail"] if r.is_error() else ["ok", enc_val(r.ok)]
    except Exception as e:  # noqa: BLE001
        return enc_exc(e)


def replay(ctx, p, s, i, want, forms, short=False):
    want = norm(want)
    for form in forms:
        with watchdog(30, f"parser {p} on {s[:60]!r}"):
            try:
                q = build(p, form)
            except Exception as e:  # noqa: BLE001
                ctx.violation("the parser cannot be built", {"parser": p, "form": form, "error": repr(e)})
                continue
            got = run(q, s, i)
            again = call(q, s) if i == 0 else None
        ctx.add(traces_validated_against_impl=1)
        if got != want or (again is not None and again != want[: 3 if want[0] == "raise" else 2]):
            ctx.violation("the outcome differs from the grammar reading",
                          {"parser": p, "form": form, "input": s[:200], "length": len(s), "position": i,
                           "expected": str(want)[:800], "got": str(got)[:800], "called": str(again)[:800]})


LEAVES = [["pchar", "a"], ["pchar", "b"], ["pchar", "1"], ["any_of", ["a", "b", ","]], ["pstring", ["a", "b"]], ["pstring", ["a", "a", "b"]],
          ["pstring", []], ["preturn", ["none"]], ["preturn", ["int", 0]], ["preturn", ["str", ""]], ["preturn", ["block", []]], ["fail"], ["digit"],
          ["letter"], ["lower"], ["digits"], ["blank"], ["pint"], ["pfloat"], ["pint"], ["pchar", ","], ["pchar", "("], ["pchar", ")"],
          ["ref", "paren"], ["ref", "list"], ["ref", "term"], ["ref", "atom"]]
CHARS = "aabbb1203-..,,()[]+ \tABz²é٣"


def nullable(p):
    k = p[0]
    if k in ("pchar", "any_of", "digit", "letter", "lower", "digits", "blank", "pint", "pfloat", "fail", "ref"):
        return False
    if k == "pstring":
        return not p[1]
    if k in ("and_then", "then_ignore", "ignore_then", "starts_with"):
        return nullable(p[1]) and nullable(p[2])
    if k in ("lift2", "apply"):
        return nullable(p[2]) and nullable(p[3])
    if k == "between":
        return all(nullable(q) for q in p[1:])
    if k == "sequence":
        return all(nullable(q) for q in p[1])
    if k == "or_else":
        return nullable(p[1]) or nullable(p[2])
    if k == "choice":
        return any(nullable(q) for q in p[1])
    if k in ("map", "starmap", "bind"):
        return nullable(p[2])
    if k in ("ignore", "reent", "many1", "sep_by1"):
        return nullable(p[1])
    return True


def rnd_parser(rng, d):
    if d == 0 or rng.random() < 0.1:
        return rng.choice(LEAVES)
    sub = lambda: rnd_parser(rng, d - 1)  # noqa: E731
    op = rng.choice(["and_then", "or_else", "or_else", "then_ignore", "ignore_then", "between", "sequence", "choice", "choice", "map", "starmap", "reent",
                     "ignore", "opt", "opt", "lift2", "apply", "bind", "many", "many", "many1", "many1", "sep_by", "sep_by", "sep_by1"])
    if op in ("and_then", "or_else", "then_ignore", "ignore_then"):
        return [op, sub(), sub()]
    if op == "between":
        return [op, sub(), sub(), sub()]
    if op in ("sequence", "choice"):
        return [op, [sub() for _ in range(rng.choice([1, 2, 2, 3, 4, 0 if op == "sequence" else 5]))]]
    if op == "map":
        return [op, rng.choice(["f", "g", "none", "zero", "id", "boomV" if rng.random() < 0.2 else "f"]), sub()]
    if op == "starmap":
        return [op, "f", ["and_then", sub(), sub()]]
    if op in ("lift2", "apply"):
        return [op, rng.choice(["f", "g"]), sub(), sub()]
    if op == "bind":
        return [op, rng.choice(["b_same", "b_same", "b_pair", "b_a", "b_many", "b_fail"]), sub()]
    if op in ("many", "many1"):
        p = sub()
        return p if nullable(p) else [op, p]
    if op in ("sep_by", "sep_by1"):
        p, q = sub(), sub()
        return ["or_else", p, q] if nullable(p) and nullable(q) else [op, p, q]
    return [op, sub()]


def number(rng, frac=False):
    """Digits in plenty, with zeros at either end."""
    ds = lambda: [rng.choice("0000123456789")] * rng.choice([0, 0, 1, 5]) + [rng.choice("0123456789") for _ in range(rng.choice([1, 1, 2, 3, 8, 17, 25, 40]))]
    return (["-"] if rng.random() < 0.4 else []) + ds() + (["."] + ds() if frac and rng.random() < 0.8 else [])


def plain_cases(rng, n):
    """Numbers, and every character class on many characters."""
    out = []
    for _ in range(n):
        frac = rng.random() < 0.6
        cs = number(rng, frac)
        out.append({"p": ["pfloat" if frac else "pint"], "s": damage(rng, cs) if rng.random() < 0.3 else cs, "i": 0, "unit": ["a"], "n": 0})
    for c in [chr(k) for k in range(256) if k != 11] + list("٣²ǅІⅫ０߀ſ\u200b\u2028\ufeff"):
        for p in (["digit"], ["letter"], ["lower"], ["digits"], ["blank"], ["pint"], ["pfloat"], ["pchar", c], ["pstring", [c, c]], ["any_of", ["a", c]]):
            out.append({"p": p, "s": [c, c, "1"], "i": 0, "unit": ["a"], "n": 0})
            if p[0] in ("pchar", "any_of") or c in "aA":
                out.append({"p": p, "s": [c.swapcase()[:1]], "i": 0, "unit": ["a"], "n": 0})
    return out


def derive(rng, p, d=0):
    """A character list the parser is likely to accept."""
    k = p[0]
    if d > 12:
        return ["1"]
    s = lambda q: derive(rng, q, d + 1)  # noqa: E731
    if k == "pchar":
        return [p[1]]
    if k == "any_of":
        return [rng.choice(p[1])]
    if k in ("pstring",):
        return list(p[1])
    if k in ("letter", "lower"):
        return [rng.choice("abzmqAZ")]
    if k == "digit":
        return [rng.choice("0123456789")]
    if k == "digits":
        return [rng.choice("0123") for _ in range(rng.randint(1, 4))]
    if k == "blank":
        return [rng.choice(" \t\n") for _ in range(rng.randint(1, 2))]
    if k == "pint":
        return number(rng) if rng.random() < 0.5 else list(rng.choice(["0", "-1", "12", "007", "-0", "99999999999999999999", "-00"]))
    if k == "pfloat":
        return number(rng, True) if rng.random() < 0.5 else list(rng.choice(["0.5", "-1.25", "3", "1.", "-0.0", "12345678901234567890.125", "00.50"]))
    if k in ("preturn", "fail"):
        return []
    if k in ("and_then", "then_ignore", "ignore_then"):
        return s(p[1]) + s(p[2])
    if k in ("lift2", "apply"):
        return s(p[2]) + s(p[3])
    if k == "between":
        return s(p[1]) + s(p[3]) + s(p[2])
    if k == "sequence":
        return [c for q in p[1] for c in s(q)]
    if k == "or_else":
        return s(rng.choice(p[1:]))
    if k == "choice":
        return s(rng.choice(p[1]))
    if k in ("map", "starmap"):
        return s(p[2])
    if k == "bind":
        x = s(p[2])
        return x + (x[-1:] if p[1] == "b_same" else ["a"] if p[1] in ("b_a", "b_many") else [])
    if k in ("ignore", "reent"):
        return s(p[1])
    if k == "opt":
        return s(p[1]) if rng.random() < 0.7 else []
    if k in ("many", "many1"):
        return [c for _ in range(rng.randint(k == "many1", 3)) for c in s(p[1])]
    if k in ("sep_by", "sep_by1"):
        n = rng.randint(k == "sep_by1", 3)
        out = []
        for j in range(n):
            out += ([] if j == 0 else s(p[2])) + s(p[1])
        return out
    if k == "ref":
        return {"paren": lambda: ["("] + s(p) + [")"] if rng.random() < 0.5 else ["7"],
                "list": lambda: ["1"] if rng.random() < 0.5 else ["[", *(s(p) + ([","] + s(p) if rng.random() < 0.7 else []) if rng.random() < 0.8 else []), "]"],
                "term": lambda: s(["ref", "atom"]) + (["+"] + s(p) if rng.random() < 0.5 else []),
                "atom": lambda: s(["ref", "paren2"]) if rng.random() < 0.4 else ["a"],
                "paren2": lambda: ["("] + s(["ref", "term"]) + [")"]}[p[1]]()
    return []


def damage(rng, cs):
    """Small changes make the interesting near misses."""
    cs = list(cs)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        j = rng.randint(0, len(cs))
        x = rng.random()
        if x < 0.4 and cs:
            del cs[min(j, len(cs) - 1)]
        elif x < 0.8:
            cs.insert(j, rng.choice(CHARS))
        else:
            cs = cs[:j]
    return cs


def rnd_case(rng, depth):
    p = rnd_parser(rng, depth)
    cs = (damage(rng, derive(rng, p)) if rng.random() < 0.85 else [rng.choice(CHARS) for _ in range(rng.randint(0, 8))])[:60]
    lead = [rng.choice(CHARS) for _ in range(rng.choice([0, 0, 0, 1, 3]))]
    tail = [rng.choice(CHARS) for _ in range(rng.choice([0, 0, 1, 2]))]
    return {"p": p, "s": lead + cs + tail, "i": len(lead), "unit": ["a"], "n": 0}


def long_cases(n):
    a, b = ["pchar", "a"], ["pchar", "b"]
    out = []

    def add(p, unit, tail="", i=0):
        out.append({"p": p, "s": list(tail), "i": i, "unit": list(unit), "n": n // len(unit)})

    add(["many", a], "a", "b")
    add(["many1", ["and_then", a, b]], "ab", "a")
    add(["many", ["or_else", ["pstring", ["a", "b"]], a]], "aba", "c")
    add(["sep_by", ["pint"], ["pchar", ","]], "1,", "")
    add(["sep_by1", ["letter"], ["ignore", ["opt", b]]], "ab", "1")
    add(["many", ["choice", [["fail"], b, ["map", "none", a]]]], "ab", "")
    add(["digits"], "10", "x")
    add(["pint"], "9", "x") if n < 4000 else None
    add(["then_ignore", ["many", ["any_of", ["a", "b"]]], ["pchar", "c"]], "ab", "c")
    add(["or_else", ["then_ignore", ["many", a], b], ["pstring", ["a", "a", "a"]]], "a", "")
    add(["many", ["reent", a]], "a", "", n // 2)
    add(["sequence", [["many", a], b, ["many", a]]], "a", "baa")
    add(["blank"], " ", "a")
    out.append({"p": ["sequence", [a] * 1500], "s": [], "i": 0, "unit": ["a"], "n": 1500})
    out.append({"p": ["choice", [b] * 1500 + [a]], "s": [], "i": 0, "unit": ["a"], "n": 1})
    out.append({"p": ["pstring", ["a"] * 3000], "s": [], "i": 1, "unit": ["a"], "n": 3001})
    out.append({"p": ["any_of", ["b"] * 1200 + ["a"]], "s": [], "i": 0, "unit": ["a"], "n": 1})
    return out


def check(ctx):
    r = ctx.tlc("ParserGen", GEN.format(n=3 if ctx.quick else 4, deep="FALSE" if ctx.quick else "TRUE"), workers=8, timeout=700)
    ctx.phase("code:parser replay")
    for k, it in enumerate(r.items):
        for s, i, want in it["runs"]:
            replay(ctx, freeze(it["p"]), "".join(s), i, want, (k % 3, (k + 1) % 3))
    ctx.add(replayed_parsers=len(r.items))
    ctx.sample(r.items[len(r.items) // 2]["p"])
    pairs = [it for it in r.items if len(str(it["p"])) > 30]
    cases = plain_cases(ctx.rng, 400 if ctx.quick else 5000) + long_cases(2500 if ctx.quick else 6000) + [c for c in long_cases(12000 if ctx.quick else 60000) if c["p"][0] in ("many", "digits", "blank", "sep_by1") and c["n"] >= 6000] + [rnd_case(ctx.rng, ctx.rng.choice([2, 3, 3, 4])) for _ in range(3000 if ctx.quick else 60000)]
    r = ctx.tlc("ParserEval", EVAL, workers=8, files={"cases.ndjson": cases}, timeout=700)
    if len(r.items) != len(cases):
        raise RuntimeError(f"{len(r.items)} of {len(cases)} cases evaluated")
    ctx.phase("code:parser runs")
    good = 0
    for it in r.items:
        c = cases[it["id"] - 1]
        s = "".join(c["unit"] * c["n"] + c["s"])
        good += it["r"][0] == "ok"
        replay(ctx, freeze(c["p"]), s, c["i"], it["r"], (0, 1, 2))
    ctx.add(replayed_transitions=len(cases), successful_parses=good)
    ctx.sample(cases[-1])
    # one parser object used by two threads
    ctx.phase("code:parsers by two threads")
    for it in ctx.rng.sample(pairs, min(len(pairs), 250 if ctx.quick else 4000)):
        (s1, i1, w1), (s2, i2, w2) = ctx.rng.choices(it["runs"], k=2)
        with watchdog(60, f"parser {it['p']} by two threads"):
            try:
                q = build(freeze(it["p"]), 0)
            except Exception:  # noqa: BLE001
                continue
            for got, sched in coop.together([lambda: run(q, "".join(s1), i1), lambda: run(q, "".join(s2), i2)], bound=1, max_runs=30):
                ctx.add(schedules=1)
                if got != [norm(w1), norm(w2)]:
                    ctx.violation("one parser used by two threads", {"parser": it["p"], "inputs": [s1, s2], "positions": [i1, i2], "expected": [w1, w2], "got": got, "schedule": sched})
                    break
    e = P.fail("message")("x")
    if not (e.is_error() and e.error == "message"):
        ctx.violation("fail does not carry its message", repr(e))
    ctx.cov["exhaustive"] = True
    ctx.assumptions += ["repetition of parsers that may succeed without consuming is not defined and not run", "the text of error messages is not compared",
                        "all parsers of two combinator levels over 8 leaves on all inputs over {a,b} up to length 3 (quick); random parsers up to depth 4"]
