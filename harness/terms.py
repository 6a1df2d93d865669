"""Terms: the mirror image of spec/Terms.tla.

dec(term) builds a Python value, enc(value) gives its term.  Callbacks are
Fn objects: named, logging every call (name and encoded arguments).
"""
from __future__ import annotations

import contextlib
import threading
from typing import Any

from expression import Error, Failure, Nothing, Ok, Option, Result, Some, Success
from expression.collections import Block, Map, Seq, TypedArray
from expression.core.error import EffectError

from . import exotic
from .core import HangError  # noqa: F401
from .coop import Abort
from .exotic import POOL, Weird


class Boom(Exception):
    pass


class SubBoom(Boom):
    pass


class BaseBoom(BaseException):
    pass


class App:
    """Symbolic result of a callback."""

    __slots__ = ("args", "name", "terms")

    def __init__(self, name, args, terms=None):
        self.name, self.args = name, args
        self.terms = terms if terms is not None else tuple(enc(a) for a in args)

    def __eq__(self, o):
        return isinstance(o, App) and freeze(enc(self)) == freeze(enc(o))

    def __hash__(self):
        return hash(freeze(enc(self)))

    def __repr__(self):
        return f"{self.name}({', '.join(map(repr, self.args))})"


class Tok:
    """Compared by key only; identity tells equal tokens apart."""

    def __init__(self, k, i):
        self.k, self.i = k, i

    def __eq__(self, o):
        return isinstance(o, Tok) and self.k == o.k

    def __lt__(self, o):
        return self.k < o.k

    def __hash__(self):
        return hash(("tok", self.k))

    def __repr__(self):
        return f"Tok({self.k},{self.i})"


class AmountF(float):
    """A number type of its own: a float with a unit, say."""

    def __add__(self, o):
        return AmountF(float(self) + float(o)) if isinstance(o, AmountF) or type(o) is int else NotImplemented

    __radd__ = __add__

    def vp_enc(self):
        return ["amt", "f", int(self)]


class AmountO:
    """A summand that is no number; adding 0 leaves it alone."""

    def __init__(self, n):
        self.n = n

    def __add__(self, o):
        return AmountO(self.n + (o.n if isinstance(o, AmountO) else o)) if isinstance(o, AmountO) or type(o) is int else NotImplemented

    __radd__ = __add__

    def vp_enc(self):
        return ["amt", "o", self.n]


AMOUNTS: dict[str, Any] = {"f": AmountF, "o": AmountO, "c": complex}

_INTERN: dict[Any, Any] = {}


def intern(cls, *a):
    key = (cls, a)
    if key not in _INTERN:
        _INTERN[key] = cls(*a)
    return _INTERN[key]


EXC = {
    "Boom": Boom,
    "ValueError": ValueError,
    "KeyError": KeyError,
    "IndexError": IndexError,
    "TypeError": TypeError,
    "AttributeError": AttributeError,
    "EffectError": EffectError,
    "ZeroDivisionError": ZeroDivisionError,
    "LookupError": LookupError,
    "ArithmeticError": ArithmeticError,
    "RuntimeError": RuntimeError,
    "StopIteration": StopIteration,
    "SubBoom": SubBoom,
    "BaseBoom": BaseBoom,
    "Exception": Exception,
    "BaseException": BaseException,
}

CALLS: list[Any] = []
_here = threading.local()  # a thread may keep its own log of calls


# what the name "Boom" stands for at the moment
BOOMS = [None]
BOOM_CLASSES: list[Any] = exotic.GEN


def boom_class():
    return BOOMS[0] or Boom


def make_boom(name="Boom"):
    e = (boom_class() if name == "Boom" else EXC[name])("from callback")
    e.__dict__["_vp_cb"] = name
    return e


def rotate(k, tuples=True, classes=None):
    """Choose the k-th binding of the opaque values and of the exception Boom (None: the plain ones)."""
    POOL.rotate(k, tuples)
    cs = BOOM_CLASSES if classes is None else classes
    BOOMS[0] = cs[k % len(cs)] if k is not None and cs else None


def pool_size(tuples=True):
    POOL.load()
    return len(POOL.items) + (len(POOL.tuples) if tuples else 0)


def binding():
    return {**POOL.describe(), "Boom": repr(boom_class())} if POOL.by or BOOMS[0] else None


def _boom(name):
    def f(*a):
        raise make_boom(name)

    return f


def _plain(x):
    """An int term, not an int standing for an opaque value."""
    return type(x) is int and id(x) not in POOL.bound


def _is_int(x, n):
    return type(x) is int and x == n


FN = {
    "id": lambda *a: a[0],
    "snd": lambda *a: a[1],
    "none": lambda *a: None,
    "zero": lambda *a: 0,
    "estr": lambda *a: "",
    "pT": lambda *a: True,
    "pF": lambda *a: False,
    "p1": lambda *a: 1,
    "pS": lambda *a: "a",
    "two": lambda *a: 2,
    "pL": lambda *a: [False],
    "amt": lambda *a: AMOUNTS["o"](2),
    "boom": _boom("Boom"),
    "boomV": _boom("ValueError"),
    "boomK": _boom("KeyError"),
    "boomI": _boom("IndexError"),
    "boomT": _boom("TypeError"),
    "boomA": _boom("AttributeError"),
    "boomE": _boom("EffectError"),
    "some_f": lambda *a: Some(App("f", a)),
    "some_id": lambda *a: Some(a[0]),
    "some_none": lambda *a: Some(None),
    "nothing": lambda *a: Nothing,
    "ok_f": lambda *a: Ok(App("f", a)),
    "ok_id": lambda *a: Ok(a[0]),
    "ok_none": lambda *a: Ok(None),
    "err_g": lambda *a: Error(App("g", a)),
    "err_none": lambda *a: Error(None),
    "pos": lambda x: x > 0,
    "even": lambda x: x % 2 == 0,
    "isnt1": lambda x: not (type(x) is int and x == 1),
    "neg": lambda x: -x,
    "inc": lambda x: x + 1,
    "mod2": lambda x: x % 2,
    "add": lambda x, y: x + y,
    "sub": lambda x, y: x - y,
    "mul10add": lambda x, y: x * 10 + y,
    "pair": lambda *a: tuple(a),
    "choose_pos": lambda x: Some(x * 10) if x > 0 else Nothing,
    "choose_even": lambda x: Some(x) if x % 2 == 0 else Nothing,
    "kv_some": lambda k, v: Some((k, v)),
    "kv_evenv": lambda k, v: _plain(v) and v % 2 == 0,
    "kv_pick_even": lambda k, v: Some((k, v)) if _plain(v) and v % 2 == 0 else Nothing,
    "k_lt10": lambda k, v: k < 10,
    "k_ge10": lambda k, v: k >= 10,
    "k_lt50": lambda k, v: k < 50,
    "k_ge50": lambda k, v: k >= 50,
    "k_mid": lambda k, v: 10 <= k < 50,
    "k_pick_ge10": lambda k, v: Some(v) if k >= 10 else Nothing,
    "k_pick_ge50": lambda k, v: Some(k) if k >= 50 else Nothing,
    "kv_isnone": lambda k, v: v is None,
    "incopt": lambda o: Some(o.value + 1) if o.is_some() and _plain(o.value) else Some(0),
    "toggle": lambda o: Nothing if o.is_some() else Some(1),
    "key": lambda x: x.k,
    "big": lambda x: x >= 2,
    "dupB": lambda x: Block.of_seq([x, x]),
    "emptyB": lambda x: Block.empty(),
    "posB": lambda x: Block.of_seq([x] if x > 0 else []),
    "dupL": lambda x: [x, x],
    "emptyL": lambda x: [],
    "posL": lambda x: [x] if x > 0 else [],
    "dupA": lambda x: TypedArray.of_seq([x, x]),
    "emptyA": lambda x: TypedArray.of_seq([]),
    "posA": lambda x: TypedArray.of_seq([x] if x > 0 else []),
    "unf": lambda n: Some((n * 10, n + 1)) if n < 3 else Nothing,
    "unf_boom": lambda n: Some((None, n + 1)) if n < 2 else _boom("Boom")(),
    "thunkL": lambda: [1, 2],
    "emptyT": lambda: [],
    "pick2": lambda x: Some(App("f", (x,))) if _is_int(x, 2) else Nothing,
    "is2": lambda x: _is_int(x, 2),
    "boom_key2": lambda x: _boom("KeyError")() if _is_int(x, 2) else 0,
    "ok_or_err_pos": lambda x: Ok(App("f", (x,))) if x > 0 else Error(App("g", (x,))),
    "some_or_none_pos": lambda x: Some(App("f", (x,))) if x > 0 else Nothing,
    "ok_boom2": lambda x: _boom("Boom")() if _is_int(x, 2) else Ok(App("f", (x,))),
    "boomL": _boom("LookupError"),
    "boomB": _boom("BaseBoom"),
    "boomSub": _boom("SubBoom"),
    "exc_val": lambda *a: KeyError("exc"),
    "wk": lambda *a: dec(["weird", 1]),
    "some_wk": lambda *a: Some(dec(["weird", 1])),
    "ok_wk": lambda *a: Ok(dec(["weird", 1])),
    "err_wk": lambda *a: Error(dec(["weird", 1])),
    "ok_ok": lambda *a: Ok(Ok(a[0])),
    "boom_at2": lambda x: _boom("Boom")() if type(x) is int and x == 2 else App("f", (x,)),
}


class Fn:
    """A named, logging callback."""

    def __init__(self, name):
        self.name = name
        self.impl = FN.get(name)

    def __call__(self, *args, **kw):
        terms = [enc(a) for a in args]
        if kw:
            terms.append(["kw", sorted([k, enc(v)] for k, v in kw.items())])
        getattr(_here, "calls", CALLS).append([self.name, terms])
        if self.impl is None:
            return App(self.name, args, tuple(terms))
        return self.impl(*args)

    def __repr__(self):
        return f"Fn({self.name})"


@contextlib.contextmanager
def record():
    """Collect the callback calls made inside the block."""
    saved = CALLS[:]
    CALLS.clear()
    out: list[Any] = []
    try:
        yield out
    finally:
        out.extend(CALLS)
        CALLS[:] = saved


def freeze(t):
    if isinstance(t, (list, tuple)):
        return tuple(freeze(x) for x in t)
    return t


class EncodeLimit(Exception):
    pass


SEQ_LIMIT = 100000


def _take(it):
    out = []
    for x in it:
        out.append(enc(x))
        if len(out) > SEQ_LIMIT:
            raise EncodeLimit("sequence does not end")
    return out


def enc_map(m: Any) -> Any:
    """All views of a map must agree; otherwise the term says so."""
    pairs = [[enc(k), enc(x)] for k, x in m.items()]
    views = {
        "to_list": [[enc(k), enc(x)] for k, x in m.to_list()],
        "to_seq": [[enc(k), enc(x)] for k, x in m.to_seq()],
        "getitem": [[enc(k), enc(m[k])] for k in m],
        "len": len(m),
        "bool": bool(m),
        "is_empty": m.is_empty(),
    }
    good = {"to_list": pairs, "to_seq": pairs, "getitem": pairs, "len": len(pairs), "bool": bool(pairs), "is_empty": not pairs}
    for name, want in good.items():
        if views[name] != want:
            return ["bad-map", name, pairs, views[name]]
    return ["map", pairs]


# tagged union classes encoded as ["u", class, case, value] (filled by the tagged union check)
UNIONS: dict[str, tuple[Any, tuple[str, ...]]] = {}


ENC_HOOK: Any = None  # further encoder, set by a check


class Kw(list):  # type: ignore
    """Keyword arguments in call order: ["kw", [[name, term]...]]."""


def enc_union(v: Any, name: str, cases: tuple[str, ...]) -> Any:
    """All views of a union value must agree; otherwise the term says so."""
    tg = v.tag
    have = [c for c in cases if hasattr(v, c)]
    if have != [tg]:
        return ["bad-union", name, str(tg), have]
    return ["u", name, tg, enc(getattr(v, tg))]


def enc(v: Any) -> Any:
    """Python value -> term."""
    if v is None:
        return ["none"]
    t = type(v)
    if ENC_HOOK is not None and (r := ENC_HOOK(v)) is not None:
        return r
    if POOL.bound and id(v) in POOL.bound:
        i, _, look = POOL.bound[id(v)]
        return ["weird", i] if POOL.look(v) == look else ["weird-changed", i]
    if t is Kw:
        return ["kw", [[n, enc(x)] for n, x in v]]
    if UNIONS:
        for name, (cls, cases) in UNIONS.items():
            if t is cls:
                return enc_union(v, name, cases)
    if t is bool:
        return ["bool", v]
    if t is int:
        return ["int", v]
    if t is str:
        return ["str", v]
    if t is float:
        return ["flt", repr(v)]
    if t is complex and v.imag == 0:
        return ["amt", "c", int(v.real)]
    if t is bytes:
        return ["bytes", list(v)]
    if t is tuple:
        return ["tup", [enc(x) for x in v]]
    if t is list:
        return ["list", [enc(x) for x in v]]
    if t is App:
        return ["app", v.name, list(v.terms)]
    if t is Weird:
        return ["weird", v.i] if _INTERN.get((Weird, (v.i,))) is v else ["weird-copy", v.i]
    if t is Tok:
        return ["tok", v.k, v.i] if _INTERN.get((Tok, (v.k, v.i))) is v else ["tok-copy", v.k, v.i]
    if t is Fn:
        return ["fn", v.name]
    if hasattr(t, "vp_enc"):
        return v.vp_enc()
    if t is Num:
        return ["num", v.name]
    if isinstance(v, Option):
        tg = v.tag
        if tg == "some":
            return ["some", enc(v.some)]
        if tg == "none":
            return ["nothing"]
        return ["bad-option", str(tg)]
    if isinstance(v, Result):
        tg = v.tag
        if tg == "ok":
            return ["ok", enc(v.ok)]
        if tg == "error":
            return ["error", enc(v.error)]
        return ["bad-result", str(tg)]
    if isinstance(v, Block):
        return ["block", _take(v)]
    if isinstance(v, TypedArray):
        return ["arr", _take(v)]
    if isinstance(v, Map):
        return enc_map(v)
    if isinstance(v, Seq):
        return ["seq", _take(v)]
    if isinstance(v, dict):
        return ["dict", sorted([[enc(k), enc(x)] for k, x in v.items()])]
    if isinstance(v, BaseException):
        return ["exc", t.__name__]
    return ["obj", t.__name__]


# further decoders, added by checks
DEC: dict[str, Any] = {}
USE_TRY = False
ARR_MAKE = TypedArray.of_seq


class Num:
    """A number given by name, e.g. -2^63-1."""

    def __init__(self, name):
        self.name = name
        self.value = int(eval(name.replace("^", "**"), {"__builtins__": {}}))  # noqa: S307


def dec(t: Any) -> Any:
    """Term -> Python value (fresh object, tokens interned)."""
    k = t[0]
    if k == "none":
        return None
    if k in ("bool", "int", "str"):
        return t[1]
    if k == "flt":
        return float(t[1])
    if k == "tup":
        return tuple(dec(x) for x in t[1])
    if k == "list":
        return [dec(x) for x in t[1]]
    if k == "some":
        return Some(dec(t[1]))
    if k == "nothing":
        return Nothing
    if k == "ok":
        return (Success if USE_TRY else Ok)(dec(t[1]))
    if k == "error":
        return (Failure if USE_TRY else Error)(dec(t[1]))
    if k == "block":
        return Block.of_seq([dec(x) for x in t[1]])
    if k == "seq":
        return Seq.of_iterable([dec(x) for x in t[1]])
    if k == "arr":
        return ARR_MAKE([dec(x) for x in t[1]])
    if k == "num":
        return Num(t[1])
    if k == "map":
        return Map.of_seq([(dec(a), dec(b)) for a, b in t[1]])
    if k == "amt":
        return AMOUNTS[t[1]](t[2])
    if k == "tok":
        return intern(Tok, t[1], t[2])
    if k == "weird":
        return POOL.by[t[1]] if t[1] in POOL.by else intern(Weird, t[1])
    if k == "app":
        return App(t[1], tuple(dec(x) for x in t[2]))
    if k == "u":
        return UNIONS[t[1]][0](**{t[2]: dec(t[3])})
    if k == "kw":
        return Kw((n, dec(x)) for n, x in t[1])
    if k == "fn":
        return Fn(t[1])
    if k == "exc":
        return EXC[t[1]]("exc")
    if k in DEC:
        return DEC[k](t)
    raise ValueError(f"cannot decode {t!r}")


def enc_exc(e: BaseException) -> Any:
    if e.__dict__.get("_vp_cb"):
        return ["raise", e.__dict__["_vp_cb"], "cb"]
    return ["raise", type(e).__name__]


def run_op(fn, args) -> tuple[Any, list[Any]]:
    """Call fn(*args); return (encoded result or raise, callback log)."""
    with record() as calls:
        try:
            ret = enc(fn(*args))
        except HangError:
            raise
        except BaseException as e:  # noqa: BLE001
            ret = enc_exc(e)
    return ret, calls


def run_here(fn, args):
    """As run_op, with a log of calls of this thread alone."""
    _here.calls = []
    try:
        try:
            ret = enc(fn(*args))
        except (HangError, Abort):
            raise
        except BaseException as e:  # noqa: BLE001
            ret = enc_exc(e)
        return [ret, _here.calls]
    finally:
        del _here.calls
