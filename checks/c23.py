import datetime
import functools
import json
import warnings
from typing import Annotated, Any, Generic, TypeVar

from pydantic import BaseModel, Field, TypeAdapter, ValidationError, create_model

from expression import Error, Nothing, Ok, Option, Result, Some
from expression.collections import Block, Seq, block
from expression.core import option, result
from harness.core import watchdog

GEN = "CONSTANT Rich = %s\nSPECIFICATION Spec\nINVARIANT Law\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
EVAL = "SPECIFICATION Spec\nINVARIANT Law\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
X = TypeVar("X")


class M(BaseModel):
    x: int
    y: Option[str] = Nothing


class N(BaseModel):
    m: Option[M]
    r: Result[M, str]
    b: Block[Option[int]] = Block.empty()


class Tree(BaseModel):
    v: int
    kids: Block["Tree"] = Block.empty()
    o: Option["Tree"] = Nothing


class GOpt(BaseModel, Generic[X]):
    f: Option[X]


class GBlk(BaseModel, Generic[X]):
    f: Block[X]


MODELS = {"M": M, "N": N, "Tree": Tree}
FIELDS = {"M": [("x", ["int"]), ("y", ["opt", ["str"]])],
          "N": [("m", ["opt", ["model", "M"]]), ("r", ["res", ["model", "M"], ["str"]]), ("b", ["blk", ["opt", ["int"]]])],
          "Tree": [("v", ["int"]), ("kids", ["blk", ["model", "Tree"]]), ("o", ["opt", ["model", "Tree"]])]}
BASE = {"int": int, "str": str, "bool": bool, "nat": Annotated[int, Field(ge=0)], "date": datetime.date, "flt": float, "any": Any}


def typ(T):
    k = T[0]
    if k in BASE:
        return BASE[k]
    if k == "model":
        return MODELS[T[1]]
    if k == "opt":
        return Option if T[1] == ["any"] else Option[typ(T[1])]
    if k == "blk":
        return Block if T[1] == ["any"] else Block[typ(T[1])]
    if k == "res":
        return Result if T[1] == T[2] == ["any"] else Result[typ(T[1]), typ(T[2])]
    if k == "lst":
        return list[typ(T[1])]
    if k == "dic":
        return dict[str, typ(T[1])]
    return tuple[typ(T[1]), typ(T[2])]


def build(v):
    """Value or plain datum of a term."""
    k = v[0]
    if k == "none":
        return None
    if k in ("int", "str", "bool"):
        return v[1]
    if k == "flt":
        return float(v[1])
    if k == "date":
        return datetime.date.fromisoformat(v[1])
    if k == "some":
        return Some(build(v[1]))
    if k == "nothing":
        return Nothing
    if k == "ok":
        return Ok(build(v[1]))
    if k == "error":
        return Error(build(v[1]))
    if k == "block":
        return Block.of_seq([build(x) for x in v[1]])
    if k == "list":
        return [build(x) for x in v[1]]
    if k == "tup":
        return tuple(build(x) for x in v[1])
    if k == "dct":
        return {n: build(x) for n, x in v[1]}
    if k == "model":
        return MODELS[v[1]](**{n: build(x) for n, x in v[2]})
    raise ValueError(v)


def term(v):
    t = type(v)
    if v is None:
        return ["none"]
    if t in (int, str, bool):
        return [t.__name__, v]
    if t is float:
        return ["flt", repr(v)]
    if t is datetime.date:
        return ["date", v.isoformat()]
    if isinstance(v, Option):
        return ["some", term(v.some)] if v.tag == "some" else ["nothing"]
    if isinstance(v, Result):
        return [v.tag, term(v.ok if v.tag == "ok" else v.error)]
    if isinstance(v, Block):
        return ["block", [term(x) for x in v]]
    if t is list:
        return ["list", [term(x) for x in v]]
    if t is tuple:
        return ["tup", [term(x) for x in v]]
    if t is dict:
        return ["dct", sorted([[n, term(x)] for n, x in v.items()])]
    if isinstance(v, BaseModel):
        return ["model", t.__name__, [[n, term(getattr(v, n))] for n in t.model_fields]]
    return ["obj", t.__name__]


def norm(p):
    """Field order in dictionaries does not matter."""
    if isinstance(p, list):
        if len(p) == 2 and p[0] == "dct":
            return ["dct", sorted([[n, norm(x)] for n, x in p[1]])]
        return [norm(x) for x in p]
    return p


class Adapter:
    """A type on its own."""

    name = "TypeAdapter"

    def __init__(self, T):
        self.ad = TypeAdapter(typ(T))
        self.dump_py = self.ad.dump_python
        self.dump_js = lambda v: json.loads(self.ad.dump_json(v))
        self.dump_pj = lambda v: self.ad.dump_python(v, mode="json")
        self.val_py = self.ad.validate_python
        self.val_js = lambda p: self.ad.validate_json(json.dumps(p))
        self.make = lambda v: v
        self.wrap = lambda v: v


class FieldOf:
    """A type as the type of a model's field."""

    name = "model field"

    def __init__(self, T, cls=None):
        self.cls = cls or create_model("W", f=(typ(T), ...))
        self.dump_py = lambda v: self.cls(f=v).model_dump()["f"]
        self.dump_js = lambda v: json.loads(self.cls(f=v).model_dump_json())["f"]
        self.dump_pj = lambda v: self.cls(f=v).model_dump(mode="json")["f"]
        self.val_py = lambda p: self.cls.model_validate({"f": p}).f
        self.val_js = lambda p: self.cls.model_validate_json(json.dumps({"f": p})).f
        self.make = lambda v: self.cls(f=v).f


class GenericField(FieldOf):
    name = "generic model field"

    def __init__(self, T):
        super().__init__(T, (GOpt if T[0] == "opt" else GBlk)[typ(T[1])])


class Methods(Adapter):
    """dict() of the value itself."""

    name = "dict()"

    def __init__(self, T, name=None, dict_=lambda v: v.dict()):
        super().__init__(T)
        self.name = name or self.name
        self.dump_py = lambda v: TypeAdapter(Any).dump_python(dict_(v))
        self.dump_js = lambda v: json.loads(TypeAdapter(Any).dump_json(dict_(v)))
        self.dump_pj = lambda v: TypeAdapter(Any).dump_python(dict_(v), mode="json")


MODULE = {"opt": option.model_dump, "res": result.dict, "blk": block.dict}


@functools.cache
def adapters(key):
    T = json.loads(key)
    out = [Adapter(T), FieldOf(T)]
    if T[0] in ("opt", "blk") and T[1] != ["any"]:
        out.append(GenericField(T))
    if T[0] in ("opt", "blk", "res"):
        out.append(Methods(T))
        out.append(Methods(T, "module dict()", MODULE[T[0]]))
    if T[0] == "blk":
        out.append(Methods(T, "Seq.dict()", lambda v: list(Seq.of_iterable(list(v)).dict())))
    return out


def plain_in_wrapper(T, inside=False):
    """Option/Result/Block with a standard container of Option/Result/Block inside (a known finding)."""
    if T[0] in ("lst", "dic", "pair"):
        return (inside and any(has_wrapper(U) for U in T[1:])) or any(plain_in_wrapper(U, inside) for U in T[1:])
    if T[0] in ("opt", "blk", "res"):
        return any(plain_in_wrapper(U, True) for U in T[1:])
    return False


def has_wrapper(T):
    return T[0] in ("opt", "blk", "res") or (T[0] in ("lst", "dic", "pair") and any(has_wrapper(U) for U in T[1:]))


def attempt(f, *a):
    try:
        return term(f(*a))
    except ValidationError:
        return ["invalid"]
    except Exception as e:  # noqa: BLE001
        return ["raise", type(e).__name__, str(e)[:200]]


def replay(ctx, it):
    T, v = it["T"], it["v"]
    known = "container-in-wrapper" if plain_in_wrapper(T) else None
    want = {"py": norm(it["py"]), "js": norm(it["js"])}
    value = build(v)
    vt = norm(term(value))
    for ad in adapters(json.dumps(T)):
        def bad(what, **detail):
            ctx.violation(what, {"type": T, "value": v, "through": ad.name, **detail}, key=known)

        ctx.add(traces_validated_against_impl=1)
        # the value itself is accepted as it is
        got = attempt(ad.make, value)
        if got != vt:
            bad("a value of the type is not accepted as it is", got=got)
            continue
        for mode, dump, validate in (("py", ad.dump_py, ad.val_py), ("js", ad.dump_js, ad.val_js), ("js", ad.dump_pj, ad.val_py)):
            got = attempt(dump, value)
            if got != want[mode]:
                bad("the dump differs from the specification", mode=mode, expected=want[mode], got=got)
                continue
            if not it["amb"]:
                back = attempt(lambda: validate(dump(value)))
                if back != vt:
                    bad("validating a dump does not give the value back", mode=mode, got=back)
                elif validate(dump(value)) != value:
                    bad("the value given back is not equal", mode=mode, got=back)
        if "dict()" in ad.name:
            continue
        for mode, cases, validate in (("py", it["dpy"], ad.val_py), ("js", it["djs"], ad.val_js)):
            for p, r in cases:
                if r == ["unspecified"]:
                    continue
                got = attempt(validate, build(p))
                exp = ["invalid"] if r == ["invalid"] else norm(r[1])
                ctx.add(replayed_transitions=1)
                if norm(got) != exp:
                    bad("the outcome of validation differs from the specification", mode=mode, data=p, expected=exp, got=got)


def rnd_type(rng, d):
    if d == 0:
        return rng.choice([["int"], ["str"], ["bool"], ["nat"], ["date"], ["flt"], ["model", "M"], ["model", "Tree"], ["lst", ["int"]], ["pair", ["str"], ["int"]]])
    k = rng.choice(["opt", "opt", "blk", "blk", "res", "res", "N"])
    if k == "N":
        return ["model", "N"]
    return [k, rnd_type(rng, d - 1)] if k != "res" else [k, *rng.sample([rnd_type(rng, d - 1), rnd_type(rng, rng.randint(0, d - 1))], 2)]


def rnd_val(rng, T, d=0):
    k = T[0]
    if k in ("int", "nat"):
        return ["int", rng.randint(0, 99)]
    if k == "str":
        return ["str", rng.choice(["", "a", "null", "ok", "é\"\\"])]
    if k == "bool":
        return ["bool", rng.random() < 0.5]
    if k == "date":
        return ["date", rng.choice(["2020-01-02", "1999-12-31"])]
    if k == "flt":
        return ["flt", rng.choice(["1.5", "-0.25", "1e+100", "0.1"])]
    if k == "opt":
        return ["nothing"] if rng.random() < 0.3 or d > 4 else ["some", rnd_val(rng, T[1], d + 1)]
    if k in ("blk", "lst"):
        return ["block" if k == "blk" else "list", [rnd_val(rng, T[1], d + 1) for _ in range(0 if d > 4 else rng.randint(0, 3))]]
    if k == "pair":
        return ["tup", [rnd_val(rng, T[1], d), rnd_val(rng, T[2], d)]]
    if k == "res":
        i = rng.randint(1, 2)
        return [["ok", "error"][i - 1], rnd_val(rng, T[i], d)]
    return ["model", T[1], [[n, rnd_val(rng, U, d + 2)] for n, U in FIELDS[T[1]]]]


def check(ctx):
    warnings.simplefilter("ignore")
    r = ctx.tlc("SerialGen", GEN % ("FALSE" if ctx.quick else "TRUE"), workers=8, timeout=2000)
    ctx.phase("code:pydantic round trips")
    for it in r.items:
        with watchdog(30, f"pydantic {it['T']}"):
            replay(ctx, it)
    ctx.sample({k: r.items[len(r.items) // 2][k] for k in ("T", "v", "py", "js")})
    cases = []
    for _ in range(400 if ctx.quick else 8000):
        T = rnd_type(ctx.rng, ctx.rng.choice([2, 3, 3, 4]))
        cases.append({"T": T, "v": rnd_val(ctx.rng, T), "damage": ctx.rng.random() < 0.3})
    # standard containers inside
    for T in (["opt", ["lst", ["opt", ["int"]]]], ["blk", ["dic", ["opt", ["str"]]]], ["res", ["pair", ["int"], ["blk", ["int"]]], ["str"]]):
        v = {"opt": ["some", ["list", [["some", ["int", 1]], ["nothing"]]]], "blk": ["block", [["dct", [["k", ["some", ["str", "a"]]]]]]],
             "res": ["ok", ["tup", [["int", 1], ["block", [["int", 2]]]]]]}[T[0]]
        cases.append({"T": T, "v": v, "damage": False})
    # long
    cases.append({"T": ["blk", ["opt", ["int"]]], "v": ["block", [["some", ["int", i]] if i % 3 else ["nothing"] for i in range(500)]], "damage": False})
    r = ctx.tlc("SerialEval", EVAL, workers=8, files={"cases.ndjson": cases}, timeout=2000)
    if len(r.items) != len(cases):
        raise RuntimeError("cases missing")
    ctx.phase("code:random pydantic types")
    for it in r.items:
        with watchdog(60, f"pydantic {it['o']['T']}"):
            replay(ctx, it["o"])
    ctx.cov["exhaustive"] = True
    ctx.assumptions += ["types: two levels over int, str, bool, constrained int, date, float, tuple, list, dict and models (generic and recursive models included); random types up to four levels",
                        "conversions pydantic itself makes (an int for a bool, a tuple for a list, contradictory or missing tags) are not prescribed",
                        "Some of a value that is represented as null cannot be told from Nothing and is only dumped"]
