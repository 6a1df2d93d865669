"""Casts: every type against every value, over the built-in, library and random class hierarchies (Cast.tla)."""
import abc
import collections
import collections.abc as cabc
import decimal
import enum
from typing import Any, Generic, TypeVar

from expression import Error, Nothing, Ok, Option, Result, Some, Success, downcast, failwith, try_downcast, upcast
from expression.collections import Block, Map, Seq, TypedArray
from expression.core.try_ import Try
from harness import exotic, terms
from harness.replay import pairs, replay_cases
from harness.terms import dec

T = TypeVar("T")
GEN = "CONSTANT Depth = 1\nCONSTANT Classes <- ClassData\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


ABSTRACT = object()


class World:
    def __init__(self):
        self.cls, self.inst, self.generic, self.decl = {}, {}, {}, []

    def add(self, name, cls, bases, inst=ABSTRACT, generic=None):
        self.cls[name] = cls
        if inst is not ABSTRACT:
            self.inst[name] = inst
        if generic is not None:
            self.generic[name] = generic
        self.decl.append({"name": name, "bases": bases, "generic": generic is not None, "concrete": inst is not ABSTRACT})

    def enc(self, v):
        for n, x in self.inst.items():
            if x is v:
                return ["inst", n, 1]
        return None


class G(Generic[T]):
    pass


class H(G[T]):
    pass


class Registered(abc.ABC):  # noqa: B024
    pass


class Reg:
    pass


Registered.register(Reg)


def builtin():
    w = World()
    w.add("object", object, [], object())
    w.add("int", int, ["object"], 0)
    w.add("bool", bool, ["int"], False)
    w.add("IntColor", exotic.IntColor, ["int"], exotic.IntColor.ZERO)
    w.add("Enum", enum.Enum, ["object"])
    w.add("Color", exotic.Color, ["Enum"], exotic.Color.RED)
    w.add("float", float, ["object"], float("nan"))
    w.add("Decimal", decimal.Decimal, ["object"], decimal.Decimal(0))
    w.add("str", str, ["object", "Sequence"], "plain")
    w.add("Str", exotic.Str, ["str"], exotic.Str("s"))
    w.add("Collection", cabc.Collection, ["object"], generic=cabc.Collection[int])
    w.add("Sequence", cabc.Sequence, ["Collection"], generic=cabc.Sequence[int])
    w.add("list", list, ["Sequence"], [], list[int])
    w.add("tuple", tuple, ["Sequence"], (), tuple[int, ...])
    w.add("Mapping", cabc.Mapping, ["Collection"], generic=cabc.Mapping[str, int])
    w.add("dict", dict, ["Mapping"], {}, dict[str, Any])
    w.add("OrderedDict", collections.OrderedDict, ["dict"], collections.OrderedDict(), collections.OrderedDict[str, int])
    w.add("NoneType", type(None), ["object"], None)
    w.add("Exception", Exception, ["object"])
    w.add("LookupError", LookupError, ["Exception"], LookupError())
    w.add("KeyError", KeyError, ["LookupError"], KeyError())
    w.add("Weird", exotic.Weird, ["object"], exotic.Weird(5))
    w.add("Agreeable", exotic.Agreeable, ["object"], exotic.Agreeable())
    w.add("Shifty", exotic.Shifty, ["object"], exotic.Shifty())
    w.add("Option", Option, ["object"], Some(None), Option[int])
    w.add("Result", Result, ["object"], Error(None), Result[int, str])
    w.add("Try", Try, ["Result"], Success(0), Try[int])
    w.add("Block", Block, ["Sequence"], Block.empty(), Block[int])
    w.add("Map", Map, ["Mapping"], Map.empty(), Map[str, int])
    w.add("Seq", Seq, ["object"], Seq.empty(), Seq[int])
    w.add("G", G, ["object"], G(), G[int])
    w.add("H", H, ["G"], H(), H[Any])
    w.add("Registered", Registered, ["object"])
    w.add("Reg", Reg, ["Registered"], Reg())
    for d in w.decl:  # structural and registered bases as Python sees them
        d["bases"] = [n for n, c in w.cls.items() if n != d["name"] and issubclass(w.cls[d["name"]], c)]
    return w


def random_world(rng, k):
    w = World()
    w.add("object", object, [])
    names = []
    for i in range(rng.randint(3, 9)):
        name = f"C{i}"
        bases = rng.sample(names, min(len(names), rng.choice([0, 1, 1, 2, 3])))
        bases.sort(key=lambda n: -int(n[1:]))
        bases = [b for b in bases if not any(b != c and issubclass(w.cls[c], w.cls[b]) for c in bases)]
        ns = rng.choice([{}, {"__bool__": lambda s: False}, {"__eq__": lambda s, o: True, "__hash__": lambda s: 0}, {"__len__": lambda s: 0}, {"__slots__": ()}])
        try:
            cls = type(name, tuple(w.cls[b] for b in bases) or (object,), dict(ns))
        except TypeError:
            continue
        names.append(name)
        w.add(name, cls, bases or ["object"], cls())
    return w


def fails(msg):
    try:
        failwith(msg)
    except BaseException as e:  # noqa: BLE001
        return (type(e).__name__, *e.args)
    return "returned"


FORMS = {"upcast": [("call", upcast), ("kw", lambda t, x: upcast(type=t, expr=x))], "downcast": [("call", downcast), ("kw", lambda t, x: downcast(type=t, expr=x))],
         "try_downcast": [("call", try_downcast), ("kw", lambda t, x: try_downcast(type_=t, expr=x))],
         "failwith": [("call", fails)]}


def check(ctx):
    worlds = [builtin()] + [random_world(ctx.rng, k) for k in range(15 if ctx.quick else 300)]
    for w in worlds:
        if ctx.late():
            break
        r = ctx.tlc("CastGen", GEN, workers=2, files={"classes.ndjson": w.decl})
        terms.ENC_HOOK = lambda v, w=w: next((["cls", n] for n, c in w.cls.items() if c is v), None) or w.enc(v) or next((["gen", n] for n, g in w.generic.items() if g is v), None)
        terms.DEC.update({"cls": lambda t, w=w: w.cls[t[1]], "gen": lambda t, w=w: w.generic[t[1]], "inst": lambda t, w=w: w.inst[t[1]]})
        items = [fix(it) for it in r.items]  # the value None encodes as such
        replay_cases(ctx, items, FORMS, label="casts", opaque=False)
        pairs(ctx, items, FORMS, label="casts")
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("35 built-in and library classes (generic, registered and exotic ones among them) and random hierarchies; downcast to a parametrised generic is not prescribed")


def fix(it):
    n = ["inst", "NoneType", 1]
    sub = lambda t: ["none"] if t == n else t
    return {**it, "args": [sub(a) for a in it["args"]], "ret": sub(it["ret"])}
