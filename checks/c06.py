import copy
import dataclasses
import pickle

from expression import Option, Result
from expression.core.try_ import Try
from harness import terms
from harness.replay import StoreDriver, pairs, replay_cases, validate_store
from harness.terms import dec, enc

from . import union_types
from .c01 import GEN
from .union_types import Five, Mut, MutE, One, Plain, Sub, Tri, Tri2

CASES = {"Tri": (Tri, ("z", "a", "m")), "Tri2": (Tri2, ("z", "a", "m")), "Sub": (Sub, ("z", "a", "m")), "Mut": (Mut, ("b", "a")),
         "MutE": (MutE, ("b", "a")), "Plain": (Plain, ("a", "b")), "One": (One, ("only",)), "Five": (Five, ("e", "d", "c", "b", "a")),
         "Option": (Option, ("none", "some")), "Result": (Result, ("ok", "error")), "Try": (Try, ("ok", "error"))}


MATCH = {}


def match(u):
    """Structural pattern matching by keyword; every arm that matches counts."""
    name = next(n for n, (c, _) in CASES.items() if type(u) is c)
    got = []
    if name in MATCH:
        return MATCH[name](u)
    match u:
        case Tri(tag="z", z=x) | Tri(tag="a", a=x) | Tri(tag="m", m=x):
            got.append((u.tag, x))
    match u:
        case Mut(tag="b", b=x) | Mut(tag="a", a=x):
            got.append((u.tag, x))
    match u:
        case MutE(b=x):
            got.append(("b", x))
        case MutE(a=x):
            got.append(("a", x))
    match u:
        case Plain(a=x):
            got.append(("a", x))
        case Plain(tag="b", b=x):
            got.append(("b", x))
    match u:
        case One(tag="only", only=x):
            got.append(("only", x))
    match u:
        case Five(a=x):
            got.append(("a", x))
        case Five(b=x):
            got.append(("b", x))
        case Five(c=x):
            got.append(("c", x))
        case Five(d=x):
            got.append(("d", x))
        case Five(e=x):
            got.append(("e", x))
    match u:
        case Option(tag="some", some=x):
            got.append(("some", x))
        case Option(tag="none", none=x):
            got.append(("none", x))
    match u:
        case Result(tag="ok", ok=x):
            got.append(("ok", x))
        case Result(error=x):
            got.append(("error", x))
    match u:
        case Tri2(z=x):
            got.append(("z", x))
        case Tri2(a=x):
            got.append(("a", x))
        case Tri2(m=x):
            got.append(("m", x))
    return got[0] if len(got) == 1 else (name, got)


def as_dict(u):
    d = dataclasses.asdict(u)
    return tuple(sorted(d.items(), key=lambda p: p[0] != "tag"))


def eq(x, y):
    a = x == y
    others = (y == x, not (x != y), not (y != x))
    return a if all(o is a for o in others) else ("==", a, others)


def lt(x, y):
    a = x < y
    return a if (y > x) is a else ("<", a, y > x)


def reject(f):
    def go(u, name):
        try:
            f(u, name)
        except TypeError:
            return "rejected"
        return "accepted"

    return go


def new(c, kw):
    return CASES[c][0](**dict(kw))


def reachable(v):
    """The lists inside a value."""
    if isinstance(v, list):
        return [v] + [y for x in v for y in reachable(x)]
    if isinstance(v, tuple):
        return [y for x in v for y in reachable(x)]
    return reachable(getattr(v, v.tag)) if isinstance(getattr(v, "tag", None), str) else []


def copied_list(copier):
    """The copy now, and the copy after the original's payload changed."""

    def go(u):
        v = copier(u)
        first = dec(enc(v))
        lists = reachable(u)
        for xs in lists:
            xs.append("changed")
        second = dec(enc(v))
        for xs in lists:
            xs.pop()
        return [first, second]

    return go


def pickled(proto, impl=pickle):
    return lambda u: impl.loads(impl.dumps(u, protocol=proto))


def posted(c, kw):
    union_types.POST.clear()
    try:
        new(c, kw)
    except TypeError:
        pass
    return list(union_types.POST)


FORMS = {
    "post": [("own __init__", posted)],
    "new": [("ctor", new), ("subscript", lambda c, kw: Plain[int](**dict(kw)) if c == "Plain" else new(c, kw))],
    "positional": [("ctor", lambda c, x: CASES[c][0](x))],
    "tag": [("tag", lambda u: u.tag)],
    "get": [("getattr", getattr)],
    "match": [("match", match)],
    "asdict": [("asdict", as_dict), ("fields", lambda u: tuple(sorted(((f.name, getattr(u, f.name)) for f in dataclasses.fields(u)), key=lambda p: p[0] != "tag")))],
    "eq": [("==", eq)],
    "hash": [("hash", lambda x, y: "alike" if hash(x) == hash(y) and len({x, y}) == 1 and {x: 1}.get(y) == 1 else "different")],
    "lt": [("<", lt)],
    "sorted": [("sorted", sorted), ("sort", lambda xs: (lambda ys: (ys.sort(), ys)[1])(list(xs)))],
    "copy": [("copy", copy.copy), ("twice", lambda u: copy.copy(copy.copy(u)))],
    "deepcopy": [("deepcopy", copy.deepcopy), ("in a list", lambda u: copy.deepcopy([u, u])[1])],
    "pickle": [(f"protocol {p}", pickled(p)) for p in range(6)] + [("python", lambda u: pickle._loads(pickle._dumps(u)))],
    "copy.list": [("deepcopy", copied_list(copy.deepcopy)), ("pickle", copied_list(pickled(4)))],
    "set": [("setattr", reject(lambda u, n: setattr(u, n, 99))), ("same", reject(lambda u, n: setattr(u, n, getattr(u, n, None)))),
            ("copy", reject(lambda u, n: setattr(copy.copy(u), n, 99))), ("unpickled", reject(lambda u, n: setattr(pickled(2)(u), n, 99)))],
    "del": [("delattr", reject(lambda u, n: delattr(u, n))), ("copy", reject(lambda u, n: delattr(copy.deepcopy(u), n)))],
}


def value(rng, depth=2):
    x = rng.random()
    if depth == 0 or x < 0.5:
        return rng.choice([["none"], ["int", rng.randint(0, 3)], ["bool", True], ["str", ""], ["tup", [["int", 1]]]])
    return union(rng, depth - 1)


def union(rng, depth=3):
    c = rng.choice(["Tri", "Tri", "Sub", "Plain", "Five", "Option", "Result", "Try", "Tri2"])
    k = rng.choice(CASES[c][1])
    return ["u", c, k, ["none"] if (c, k) == ("Option", "none") else value(rng, depth)]


def gen(rng, tags):
    us = [i for i, t in enumerate(tags) if t[0] == "u"]
    r = ("reg", rng.choice(us))
    u = tags[r[1]]
    op = rng.choice(["new", "new", "tag", "match", "eq", "eq", "copy", "deepcopy", "pickle", "get", "set", "del"])
    cases = CASES[u[1]][1]
    if op == "new":
        c = rng.choice(list(CASES))
        k = rng.choice(CASES[c][1])
        v = tags[rng.choice(us)] if rng.random() < 0.5 and (c, k) != ("Option", "none") else ["none"]
        kw = [[k, v]]
        if rng.random() < 0.3:
            kw.insert(rng.randint(0, 1), ["tag", ["str", rng.choice(CASES[c][1])]])
        if rng.random() < 0.2:
            j = rng.choice([*CASES[c][1], "nosuch"])
            if j not in [n for n, _ in kw]:
                kw.append([j, ["int", 0]])
        return "new", [["str", c], ["kw", kw]]
    if op == "eq":
        return op, [r, ("reg", rng.choice(us))]
    if op in ("get", "set", "del"):
        if op != "get" and u[1] in ("Mut", "MutE"):
            return "tag", [r]
        return op, [r, ["str", rng.choice(cases if op == "get" else (*cases, "tag"))]]
    return op, [r]


class Declared:
    """Histories over randomly declared unions."""

    def __init__(self, decls):
        self.decls = decls
        self.names = [d["name"] for d in decls]

    def lit(self, rng, depth=2):
        d = rng.choice(self.decls)
        x = rng.random()
        v = self.lit(rng, depth - 1) if depth and x < 0.3 else ["list", [["int", 1]]] if x < 0.35 and not d["frozen"] else \
            rng.choice([["none"], ["int", rng.randint(0, 3)], ["bool", True], ["str", ""], ["str", "tag"], ["tup", [["int", 1]]]])
        return ["u", d["name"], rng.choice(d["cases"]), v]

    def gen(self, rng, tags):
        us = [i for i, t in enumerate(tags) if t[0] == "u"]
        i = rng.choice(us)
        u, r = tags[i], ("reg", i)
        d = self.decls[self.names.index(u[1])]
        op = rng.choice(["new", "new", "tag", "get", "match", "asdict", "eq", "eq", "hash", "lt", "lt", "sorted", "copy", "deepcopy", "pickle", "set", "del"])
        if op == "new":
            c = rng.choice(self.decls)
            ks = [*c["cases"], "nosuch"] if rng.random() < 0.2 else c["cases"]
            kw = [[rng.choice(ks), rng.choice(tags) if rng.random() < 0.3 else ["int", rng.randint(0, 2)]]]
            if rng.random() < 0.3:
                kw.insert(rng.randint(0, 1), ["tag", ["str", rng.choice([kw[0][0], rng.choice(c["cases"]), ""])]])
            if rng.random() < 0.2:
                j = rng.choice([*c["cases"], "nosuch"])
                if j not in [n for n, _ in kw]:
                    kw.insert(rng.randint(0, len(kw)), [j, ["int", 0]])
            return op, [["str", c["name"]], ["kw", kw]]
        same = [j for j in us if self.decls[self.names.index(tags[j][1])]["family"] == d["family"]]
        if op == "eq":
            return op, [r, ("reg", rng.choice(same if rng.random() < 0.7 else us))]
        plain = [j for j in us if tags[j][3][0] == "int"]
        if op == "lt":
            js = [j for j in same if j in plain]
            if i not in js:
                return "tag", [r]
            return op, [r, ("reg", rng.choice(js if rng.random() < 0.8 else plain))]
        if op == "sorted":
            if not d["ordered"]:
                return "tag", [r]
            return op, [["list", [["u", u[1], rng.choice(d["cases"]), ["int", rng.randint(0, 2)]] for _ in range(rng.randint(0, 6))]]]
        if op == "hash":
            js = [j for j in us if tags[j][1:] == u[1:]]
            return (op, [r, ("reg", rng.choice(js))]) if hashable(u, self) else ("tag", [r])
        if op == "get":
            return op, [r, ["str", rng.choice(d["cases"])]]
        if op in ("set", "del"):
            return (op, [r, ["str", rng.choice([*d["cases"], "tag"])]]) if d["frozen"] else ("copy", [r])
        if op == "asdict" and u[3][0] in ("u", "list"):
            return "tag", [r]
        return op, [r]


def hashable(u, D):
    return u[0] != "list" and (u[0] != "u" or (D.decls[D.names.index(u[1])]["frozen"] and hashable(u[3], D)))


def declared(ctx):
    """Random declarations: number, names and order of cases, position of the tag, flags, subclasses."""
    ctx.phase("code:random union declarations")
    decls, srcs, events = [], {}, []
    for k in range(12 if ctx.quick else 200):
        if ctx.late():
            break
        ds, classes, m, src = union_types.declare(ctx.rng, f"R{k}")
        CASES.update(classes)
        terms.UNIONS.update(classes)
        for d in ds:
            MATCH[d["name"]] = m
            srcs[d["name"]] = src
        decls += ds
        D = Declared(decls[-4:])
        drv = StoreDriver(ctx, FORMS, D.gen, D.lit, opaque=False)
        for _ in range(3 if ctx.quick else 6):
            drv.history(6, 60)
        for e in drv.events:
            if e["ev"] == "reset":
                e["form"] = ["\n".join(srcs[n]) for n in D.names if not n.endswith("S")]
        events += drv.events
    validate_store(ctx, "UnionTrace", events, "history over declared unions", cfg=MORE, files={"decls.ndjson": decls}, timeout=1500)


MORE = "CONSTANT More <- DeclData\n"


def check(ctx):
    terms.UNIONS.update(CASES)
    r = ctx.tlc("UnionGen", "CONSTANT More <- NoMore\n" + GEN, workers=8)
    replay_cases(ctx, r.items, FORMS, label="tagged union transitions")
    pairs(ctx, r.items, FORMS, label="tagged unions", share=False, skip=lambda it: it["op"] == "post")
    ctx.phase("code:tagged union histories")
    drv = StoreDriver(ctx, FORMS, gen, union)
    for _ in range(80 if ctx.quick else 2000):
        drv.history(5, 40)
    drv.validate("UnionTrace", "tagged union history", cfg=MORE, files={"decls.ndjson": []})
    declared(ctx)
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("union declarations: 8 declared here (1 to 5 cases, frozen or not, ordered or not, subclassed, generic) plus Option, Result, Try; "
                           "which exception rejects an assignment (TypeError or AttributeError) is not prescribed")
