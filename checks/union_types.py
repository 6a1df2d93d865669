"""The tagged unions of spec/Union.tla (module level, so that they can be pickled)."""
from typing import Any, Generic, Literal, TypeVar

from expression import case, tag, tagged_union

T = TypeVar("T")


@tagged_union(frozen=True, order=True)
class Tri:
    tag: Literal["z", "a", "m"] = tag()
    z: Any = case()
    a: Any = case()
    m: Any = case()


class Sub(Tri):
    pass


Tri_ = Tri


def clone():
    @tagged_union(frozen=True, order=True)
    class Tri2:
        tag: Literal["z", "a", "m"] = tag()
        z: Any = case()
        a: Any = case()
        m: Any = case()

    return Tri2


Tri2 = clone()
Tri2.__qualname__ = "Tri2"


@tagged_union(order=True)
class Mut:
    tag: Literal["b", "a"] = tag()
    b: Any = case()
    a: Any = case()


@tagged_union
class MutE:
    tag: Literal["b", "a"] = tag()
    b: Any = case()
    a: Any = case()


@tagged_union(frozen=True)
class Plain(Generic[T]):
    a: T = case()
    b: str = case()
    tag: Literal["a", "b"] = tag()

    @staticmethod
    def A(x):
        return Plain(a=x)


POST = []  # what the own __init__ of the classes saw


@tagged_union(frozen=True, order=True)
class One:
    tag: Literal["only"] = tag()
    only: Any = case()

    def __init__(self):  # called by the generated constructor
        POST.append((self.tag, getattr(self, self.tag)))


@tagged_union(frozen=True, order=True, repr=False)
class Five:
    tag: Literal["e", "d", "c", "b", "a"] = tag()
    e: Any = case()
    d: Any = case()
    c: Any = case()
    b: Any = case()
    a: Any = case()

    def __init__(self):  # called by the generated constructor
        POST.append((self.tag, getattr(self, self.tag)))


NAMES = ["a", "b", "c", "z", "ok", "some", "none", "error", "value", "index", "items", "keys", "name", "data", "kind", "type_", "A", "Zed", "x1", "x10", "x2",
         "long_case_name", "tags", "state", "args", "cls", "other", "hash", "eq", "key", "_hidden", "dict_", "copy", "init", "ä", "fields", "match", "tag_"]


def declare(rng, name):
    """A random declaration as [name, cases, family, frozen, ordered] and its class, reachable for pickling."""
    n = rng.choice([1, 2, 2, 3, 4, 6, 9, 14])
    cases = rng.sample(NAMES, n)
    frozen, ordered, rep = rng.random() < 0.75, rng.random() < 0.6, rng.random() < 0.6
    body = [(c, "case()") for c in cases]
    body.insert(rng.choice([0, 0, n, rng.randint(0, n)]), ("tag", "tag()"))
    args = [f"{k}=True" for k, v in (("frozen", frozen), ("order", ordered)) if v] + ([] if rep else ["repr=False"])
    src = [f"@tagged_union({', '.join(args)})" if args or rng.random() < 0.5 else "@tagged_union", f"class {name}:"]
    if rng.random() < 0.3:
        src.append("    'A union.'")
    src += [f"    {c}: {'Any' if c != 'tag' else 'Literal[' + ', '.join(map(repr, cases)) + ']'} = {v}" for c, v in body]
    if rng.random() < 0.3:
        src += ["    def __str__(self):", "        return 'U'"]
    if rng.random() < 0.3:
        src += ["    @property", "    def cases_seen(self):", "        return [self.tag]"]
    src += [f"class {name}S({name}):", "    def more(self): return 1"]
    src += [f"def match_{name}(u):", "    got = []"]
    for c in cases:
        src += ["    match u:", f"        case {name}(tag={c!r}, {c}=x):", f"            got.append(({c!r}, x))"]
    src += ["    match u:"] + [ln for c in cases for ln in (f"        case {name}({c}=x):", f"            got.append(({c!r}, x))")]
    src += ["    ok = len(got) == 2 and got[0][0] == got[1][0] and got[0][1] is got[1][1]", "    return got[0] if ok else ('arms', got)"]
    exec("\n".join(src), globals())  # noqa: S102
    g = globals()
    g[name].__module__ = g[name + "S"].__module__ = __name__
    return [{"name": x, "cases": cases, "family": name, "frozen": frozen, "ordered": ordered} for x in (name, name + "S")], {x: (g[x], tuple(cases)) for x in (name, name + "S")}, g["match_" + name], src
