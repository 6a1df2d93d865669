"""Public API forms of Map operations."""
from expression import pipe
from expression.collections import Block, Map, map as m


def forms(op, method=True):
    f = getattr(m, op)
    out = [("module", lambda t, *a: f(*a)(t)), ("pipe", lambda t, *a: pipe(t, f(*a))), ("x.pipe", lambda t, *a: t.pipe(f(*a)))]
    if method:
        out.append(("method", lambda t, *a: getattr(t, op)(*a)))
    return out


def plain(op):
    f = getattr(m, op)
    return [("module", lambda t: f(t)), ("method", lambda t: getattr(t, op)()), ("pipe", lambda t: pipe(t, f))]


def try_get(t, k):
    box = []
    return (t.try_get_value(k, box), box)


def by_iter(t):
    return [(k, t[k]) for k in t]


def hash_ok(a, b):
    return a != b or hash(a) == hash(b)


def str_same(a, b):
    return a != b or (str(a) == str(b) and repr(a) == repr(b))


def once_dict(t):
    return list(dict(t).items())


FORMS = {op: forms(op) for op in ["add", "remove", "change", "filter", "partition", "map", "contains_key", "try_find", "try_pick", "exists", "for_all", "fold", "iterate"]}
FORMS["contains_key"] += [("in", lambda t, k: k in t), ("keys", lambda t, k: k in t.keys()), ("find", lambda t, k: m.try_find(k)(t).is_some())]
FORMS["pick"] = forms("pick", method=False)
FORMS["find"] = forms("find", method=False)
FORMS["getitem"] = [("[]", lambda t, k: t[k])]
FORMS["get"] = [("get", lambda t, k, d: t.get(k, d))]
FORMS["try_get_value"] = [("method", try_get)]
FORMS["fold_back"] = [("method", lambda t, f, s: t.fold_back(f, s)), ("module", lambda t, f, s: m.fold_back(f, t)(s))]
FORMS["to_list"] = plain("to_list")
FORMS["to_seq"] = [("method", lambda t: list(t.to_seq())), ("module", lambda t: list(m.to_seq(t)))]


def seq_twice(x):
    a = list(x)
    b = list(x)
    assert a == b or len(a) == len(b), (len(a), len(b))
    return b


def interleaved(x):
    """Two iterators over one sequence advancing in turn; the second one's elements."""
    i, j = iter(x), iter(x)
    out = []
    for _ in range(10**6):
        next(i, None)
        y = next(j, interleaved)
        if y is interleaved:
            break
        out.append(y)
    return out


FORMS["to_seq"] += [("twice", lambda t: seq_twice(t.to_seq())), ("module-interleaved", lambda t: interleaved(m.to_seq(t)))]
FORMS["items"] = [("items", lambda t: list(t.items())), ("iter", by_iter), ("dict", once_dict)]
FORMS["keys"] = [("iter", list), ("keys", lambda t: list(t.keys())), ("for", lambda t: [k for k in t]), ("interleaved", interleaved)]
FORMS["values"] = [("values", lambda t: list(t.values())), ("items", lambda t: [v for _, v in t.items()])]
FORMS["len"] = [("len", len), ("count", m.count)]
FORMS["is_empty"] = [("method", lambda t: t.is_empty()), ("module", m.is_empty), ("bool", lambda t: not t)]
FORMS["of_seq"] = [("static", Map.of_seq), ("module", m.of_seq), ("list", Map.of_list), ("module-list", m.of_list), ("create", Map.create), ("module-create", m.create),
                   ("block", lambda xs: Map.of_block(Block.of_seq(xs))), ("module-block", lambda xs: m.of_block(Block.of_seq(xs))),
                   ("gen", lambda xs: Map.of_seq(x for x in xs))]
FORMS["of_kw"] = [("static", lambda xs: Map.of(**dict(xs))), ("module", lambda xs: m.of(**dict(xs)))]
FORMS["empty"] = [("static", Map.empty), ("module", lambda: m.empty)]
FORMS["eq"] = [("==", lambda a, b: a == b), ("!=", lambda a, b: not (a != b)), ("sym", lambda a, b: b == a)]
FORMS["hash_ok"] = [("hash", hash_ok)]
FORMS["str_same"] = [("str", str_same)]
ORDERED = {"change", "fold", "fold_back", "iterate"}
ONCE = {"map", "filter", "partition"}


def norm_calls(op, ret, calls):
    """What is recorded of the callback calls (see MapTrace.tla)."""
    if op in ORDERED:
        return calls
    if op in ONCE and ret[0] != "raise":
        # each binding once, in any order: recorded in ascending key order
        return sorted(calls, key=lambda c: sort_key(c[1][0]))
    return []


STR = ["", "a", "ab", "abc", "b", "ba", "bb", "c", "d", "e"]


def sort_key(t):
    if t[0] == "tup":
        return tuple(sort_key(x) for x in t[1])
    if t[0] == "str":
        return STR.index(t[1]) if t[1] in STR else t[1]
    return t[1]


FAMILIES = {
    "int": lambda i: ["int", 10 * i], "neg": lambda i: ["int", i - 4], "str": lambda i: ["str", STR[i]],
    "tup": lambda i: ["tup", [["int", i // 2], ["str", STR[i % 2 + 1]]]], "tok": lambda i: ["tok", i, 1],
}


def as_bool(fs):
    return [(n, (lambda f: lambda *a: bool(f(*a)))(f)) for n, f in fs]


# a predicate may answer with any truthy value; which one comes back is not promised
FORMS["exists"] = as_bool(FORMS["exists"])
FORMS["for_all"] = as_bool(FORMS["for_all"])
