from expression import compose, curry, curry_flip, flip, fst, identity, pipe, pipe2, pipe3, pipeable, snd
from expression import Option, Result
from expression.collections import Block, Map, Seq
from expression.core.compose import starcompose
from expression.core.misc import starid
from expression.core.pipe import starpipe
from harness import terms
from harness.core import watchdog
from harness.replay import StoreDriver, pairs, replay_cases, sweep, validate_store
from harness.terms import App, Fn, dec, enc, run_op

GEN = "CONSTANT Size = %d\nSPECIFICATION GSpec\nINVARIANT Emit\nINVARIANT Stepwise\nINVARIANT Split\nCHECK_DEADLOCK FALSE\n"


class Grp:
    """A group of arguments."""

    def __init__(self, pos, kw):
        self.pos, self.kw = pos, kw

    def vp_enc(self):
        return ["grp", [enc(x) for x in self.pos], [[k, enc(v)] for k, v in self.kw]]


class Made:
    """A function made by the library, with the term that says how it was made."""

    def __init__(self, real, term):
        self.real, self.term = real, term

    def vp_enc(self):
        return self.term

    def __call__(self, *a, **kw):
        r = self.real(*a, **kw)
        if self.term[0] == "part" and callable(r) and not isinstance(r, (Made, Fn, App)):
            _, kind, n, f, gs = self.term
            return Made(r, ["part", kind, n, f, [*gs, enc(Grp(a, list(kw.items())))]])
        return r


def dec_part(t):
    _, kind, n, f, gs = t
    m = Made({"curry": curry, "flip": curry_flip}[kind](n)(dec(f)), ["part", kind, n, f, []])
    for g in gs:
        m = call(m, dec(g))
    return m


def call(f, g):
    return f(*g.pos, **dict(g.kw))


def group_by_group(make):
    def go(kind, n, f, groups):
        g = make(kind, n, f)
        for grp in groups:
            g = call(g, grp)
        return g

    return go


def make(kind, n, f):
    return (curry if kind == "curry" else curry_flip)(n)(f)


def wasteful(kind, n, f, groups):
    """Every partial is also applied to something else before and after it is used."""
    g = make(kind, n, f)
    parts = []
    saved = terms.CALLS[:]
    for grp in groups:
        parts.append(g)
        if len(parts) < len(groups):
            g("other", "junk")
        g = call(g, grp) if len(parts) < len(groups) else g
    del terms.CALLS[:]
    for part in parts[:-1]:
        part("again")
    terms.CALLS[:] = saved
    return call(g, groups[-1])


def with_pipe(x, *fs):
    return x.pipe(*fs) if isinstance(x, (Option, Result, Block, Map, Seq)) else pipe(x, *fs)


def nested(x, *fs):
    k = len(fs) // 2
    return pipe(x, compose(*fs[:k]), compose(*fs[k:]))


def pipe_n(xs, *fs):
    return (pipe2 if len(xs) == 2 else pipe3)(xs, *fs)


FORMS = {
    "pipe": [("pipe", pipe), ("compose", lambda x, *fs: compose(*fs)(x)), (".pipe", with_pipe), ("nested", nested),
             ("twice", lambda x, *fs: (lambda h: pipe(x, h))(compose(compose(*fs))))],
    "pipeN": [("pipe2/3", pipe_n)],
    "starpipe": [("starpipe", starpipe), ("starcompose", lambda xs, *fs: starcompose(*fs)(xs))],
    "compose": [("compose", lambda *fs: Made(compose(*fs), ["comp", [enc(f) for f in fs]]))],
    "starcompose": [("starcompose", lambda *fs: Made(starcompose(*fs), ["scomp", [enc(f) for f in fs]]))],
    "flip": [("flip", lambda f: Made(flip(f), ["flip", enc(f)]))],
    "curry": [("curry", lambda n, f: Made(curry(n)(f), ["part", "curry", n, enc(f), []]))],
    "curry_flip": [("curry_flip", lambda n, f: Made(curry_flip(n)(f), ["part", "flip", n, enc(f), []]))],
    "pipeable": [("pipeable", lambda f, g: Made(pipeable(f, *g.pos, **dict(g.kw)), ["part", "flip", 1, enc(f), [enc(g)]]))],
    "call": [("call", call)],
    "identity": [("identity", identity)],
    "fst": [("fst", fst)],
    "snd": [("snd", snd)],
    "starid": [("starid", starid)],
    "whole": [("groups", group_by_group(make)), ("wasteful", wasteful),
              ("pipeable", lambda kind, n, f, gs: call(pipeable(f, *gs[0].pos, **dict(gs[0].kw)), gs[1]) if (kind, n) == ("flip", 1) else group_by_group(make)(kind, n, f, gs))],
}


class Groups(list):
    def vp_enc(self):
        return ["groups", [enc(g) for g in self]]


terms.DEC.update({
    "grp": lambda t: Grp([dec(x) for x in t[1]], [(k, dec(v)) for k, v in t[2]]),
    "groups": lambda t: Groups(dec(g) for g in t[1]),
    "part": dec_part,
    "comp": lambda t: FORMS["compose"][0][1](*[dec(f) for f in t[1]]),
    "scomp": lambda t: FORMS["starcompose"][0][1](*[dec(f) for f in t[1]]),
    "flip": lambda t: FORMS["flip"][0][1](dec(t[1])),
})

VALS = [["none"], ["int", 0], ["int", 1], ["str", ""], ["tup", []], ["tup", [["int", 1], ["none"]]], ["some", ["none"]], ["nothing"], ["error", ["int", 1]], ["weird", 1]]
UNARY = ["f", "g", "id", "none", "zero", "pair", "some_id", "f", "g", "boom"]


def pre(term, i):
    """Number of further groups a partial takes, or None."""
    if term[0] != "part":
        return None
    _, kind, n, _, gs = term
    return (1 if kind == "flip" and n == 0 else n + 1) - len(gs)


def unary(t):
    """Can the function value be used as a one-argument function?"""
    return t[0] in ("fn", "comp") or (t[0] == "part" and (t[1] == "curry" or t[4] or t[2] == 0))


def gen(rng, tags):
    def val():
        return rng.choice(VALS)

    def fn():
        us = [i for i, t in enumerate(tags) if unary(t)]
        return ("reg", rng.choice(us)) if us and rng.random() < 0.5 else ["fn", rng.choice(UNARY)]

    def grp(kw):
        pos = [val() for _ in range(rng.choice([0, 1, 1, 2]))]
        ks = rng.sample(["a", "b", "key", "z"], rng.choice([0, 0, 1, 2])) if kw else []
        return ["grp", pos, [[k, val()] for k in ks]]

    made = [i for i, t in enumerate(tags) if t[0] in ("part", "comp", "scomp", "flip")]
    op = rng.choice(["call"] * 8 + ["pipe", "pipe", "compose", "curry", "curry", "curry_flip", "curry_flip", "pipeable", "flip", "starcompose", "pipeN"])
    if op == "call" and not made:
        op = "curry"
    if op == "call":
        i = rng.choice(made)
        t = tags[i]
        if t[0] == "part":
            left = pre(t, i)
            flip_first = t[1] == "flip" and not t[4]
            if (left == 1 and t[1] == "curry") or flip_first:
                g = grp(True)
            elif t[1] == "curry" and rng.random() < 0.3:
                used = {k for g in t[4] for k, _ in g[2]}
                g = ["grp", [val()], [[k, val()] for k in rng.sample(["c", "key"], 1) if k not in used]]
            else:
                g = ["grp", [val()], []]
            used = {k for h in t[4] for k, _ in h[2]}
            g[2] = [p for p in g[2] if p[0] not in used]
        elif t[0] == "flip":
            g = ["grp", [val(), val()], []]
        elif t[0] == "scomp":
            g = ["grp", [["tup", [val() for _ in range(rng.randint(0, 3))]]], []]
        else:
            g = ["grp", [val()], []]
        return op, [("reg", i), g]
    if op in ("curry", "curry_flip"):
        return op, [["int", rng.randint(0, 4)], ["fn", rng.choice(["f", "g", "none", "boomT"])]]
    if op == "pipeable":
        return op, [["fn", rng.choice(["f", "g"])], grp(True)]
    if op == "flip":
        return op, [["fn", rng.choice(["f", "g", "boom"])]]
    if op == "compose":
        return op, [fn() for _ in range(rng.choice([0, 1, 2, 3, 5]))]
    if op == "starcompose":
        return op, [["fn", "pair"] for _ in range(rng.randint(0, 3))] + [["fn", rng.choice(["f", "pair", "none"])]]
    if op == "pipeN":
        n = rng.choice([2, 3])
        cur = [i for i, t in enumerate(tags) if t[0] == "part" and t[1] == "curry" and pre(t, i) == n]
        if cur:
            return op, [["tup", [val() for _ in range(n)]], ("reg", rng.choice(cur)), *[fn() for _ in range(rng.randint(0, 2))]]
    return "pipe", [val(), *[fn() for _ in range(rng.choice([0, 1, 2, 4, 8, 20]))]]


def check(ctx):
    r = ctx.tlc("FuncGen", GEN % (3 if ctx.quick else 4), workers=8)
    replay_cases(ctx, r.items, FORMS, label="function transitions", tuples=False)
    pairs(ctx, r.items, FORMS, label="curried functions")
    sweep(ctx, r.items, FORMS, label="function transitions, every opaque value", tuples=False, per_op=30 if ctx.quick else 400)
    ctx.phase("code:function histories")
    drv = StoreDriver(ctx, FORMS, gen, lambda rng: ["int", 1], tuples=False)
    for _ in range(80 if ctx.quick else 1500):
        drv.history(1, 40)
    # long pipes: more functions than the recursion limit allows nested calls
    for n in (17, 40, 300, 2500):
        fs = [["fn", ["id", "zero", "id", "none"][k % 4]] for k in range(n)] + [["fn", "f"]]
        for _name, form in FORMS["pipe"]:
            with watchdog(60, "long pipe"):
                ret, calls = run_op(form, [5, *[dec(f) for f in fs]])
            drv.events += [{"ev": "reset"}, {"ev": "call", "op": "pipe", "args": [["int", 5], *fs], "ret": ret, "calls": calls}]
    validate_store(ctx, "FuncTrace", drv.events, "history of function values")
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("keyword arguments in any group (curry) or the first group (curry_flip, pipeable); no keyword is given twice; curry(n) and curry_flip(n) for n up to 4")
