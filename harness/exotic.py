"""Values and exceptions the library has no business looking into.

The specification treats an opaque value as an atom (a "weird" term).  Each run binds these atoms to Python objects of
all sorts: rotate(k) chooses the next binding.
"""
from __future__ import annotations

import array
import asyncio
import collections
import dataclasses
import datetime
import decimal
import enum
import fractions
import re
import types


class Weird:
    """A value nobody may look into: truth value, comparison, length, iteration and str raise."""

    def __init__(self, i):
        self.i = i

    def _no(self, *a, **k):
        raise AssertionError("the wrapped value was inspected")

    __bool__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __len__ = __iter__ = __contains__ = _no
    __hash__ = object.__hash__

    def __repr__(self):
        return f"Weird({self.i})"


class Duck:
    """Looks like an Option, a Result, a model and a token."""

    tag, some, ok, error, none, value, args, kw = "some", 1, 2, 3, None, 4, (), {}
    is_cancellation_requested = True

    def _m(self, *a, **k):
        raise AssertionError("a method of the wrapped value was called")

    map = bind = pipe = is_ok = is_some = is_none = is_error = dict = model_dump = default_value = to_list = run = send = throw = close = dispose = _m

    def __repr__(self):
        return "Duck"


class Shifty:
    """Equal to nothing, not even to itself."""

    def __eq__(self, o):
        return False

    __hash__ = object.__hash__

    def __repr__(self):
        return "Shifty"


class Agreeable:
    """Equal to everything, and false."""

    def __eq__(self, o):
        return True

    def __bool__(self):
        return False

    def __hash__(self):
        return 0

    def __repr__(self):
        return "Agreeable"


class Color(enum.Enum):
    RED = 0


class IntColor(enum.IntEnum):
    ZERO = 0


@dataclasses.dataclass
class Point:
    x: int = 0


class Str(str):
    pass


class Call:
    def __call__(self, *a, **k):
        raise AssertionError("the wrapped value was called")

    def __repr__(self):
        return "Call"


class Loops:
    def __iter__(self):
        raise AssertionError("the wrapped value was iterated")

    def __await__(self):
        raise AssertionError("the wrapped value was awaited")

    def __aiter__(self):
        raise AssertionError("the wrapped value was iterated")

    def __repr__(self):
        return "Loops"


def _make():
    import inspect
    import typing

    from expression.core.error import EffectError
    from expression.system import CancellationToken, CancellationTokenSource, Disposable, ObjectDisposedException, OperationCanceledError

    return [
        "  pad ", "AA", "\n\n", "00", "None", "x" * 1000, "é\u0301", "\x00\x00", Str("s"), b"", b"ab", bytearray(b"x"), memoryview(b"m"),
        {}, {"a": 1}, {"tag": "ok", "ok": 1}, {"some": 1}, set(), {1}, frozenset(), frozenset({0}), [1, 2, 3], [[]], [None],
        float("nan"), float("inf"), -0.0, 0.5, 2**70, -2**63, 10**9 + 7, 1j, decimal.Decimal("0.0"), fractions.Fraction(1, 3),
        datetime.datetime(2020, 1, 1), datetime.timedelta(0), Ellipsis, object(), int, type(None), Duck, ValueError, ValueError("v"),
        EffectError("e"), StopIteration("s"), asyncio.CancelledError(), KeyError("k"), BaseException("b"), lambda *a: 1 / 0, len, range(0), range(3),
        collections.deque(), collections.OrderedDict(), collections.Counter("a"), Color.RED, IntColor.ZERO, Point(), slice(1), types.SimpleNamespace(tag="ok"),
        re.compile("a"), array.array("i"), array.array("i", [1]), NotImplemented, OperationCanceledError("o"),
        ObjectDisposedException(), StopAsyncIteration("a"), GeneratorExit(), TimeoutError(), asyncio.InvalidStateError(), CancellationToken.none(),
        CancellationTokenSource().token, Disposable.create(lambda: None), dataclasses.MISSING, inspect.Parameter.empty, typing.Any, list[int], property(), Duck(), Shifty(), Agreeable(), Call(), Loops(), types, Weird(90),
    ]


def _tuples():
    return [(1, 2, 3, 4, 5, 6), ((),), collections.namedtuple("P", "a b")(1, 2), (None, None), (0, ""), ("tag", "ok")]


class Pool:
    def __init__(self):
        self.items = None
        self.bound = {}   # id -> (i, object, repr at the time)
        self.by = {}

    def load(self):
        if self.items is None:
            self.items, self.tuples = _make(), _tuples()

    def rotate(self, k, tuples=True, n=2):
        """Bind the atoms 1..n to the k-th choice; k = None: the plain ones."""
        self.bound, self.by = {}, {}
        if k is None:
            return
        self.load()
        xs = self.items + (self.tuples if tuples else [])
        for i in range(1, n + 1):
            v = xs[(k * (2 * i - 1) + (i - 1) * 17) % len(xs)]
            if id(v) in self.bound:
                continue
            self.bound[id(v)] = (i, v, self.look(v))
            self.by[i] = v

    @staticmethod
    def look(v):
        return repr(v) if isinstance(v, (list, dict, set, bytearray, collections.deque, array.array)) else None

    def describe(self):
        return {str(i): repr(v)[:80] for i, v in self.by.items()}


POOL = Pool()

# Exceptions a callback may raise.  GEN: classes that pass through generators and iterators unchanged.
GEN = [ValueError, TypeError, KeyError, IndexError, AttributeError, RuntimeError, RecursionError, NotImplementedError, ZeroDivisionError, OverflowError,
       OSError, TimeoutError, ConnectionError, FileNotFoundError, AssertionError, NameError, UnboundLocalError, EOFError, ImportError, LookupError,
       ArithmeticError, BufferError, MemoryError, ReferenceError, SyntaxError, SystemError, UnicodeError, Warning, UserWarning, asyncio.InvalidStateError,
       PermissionError, InterruptedError, BlockingIOError, decimal.InvalidOperation, FloatingPointError]
BASE = [KeyboardInterrupt, SystemExit, asyncio.CancelledError]
STOP = [StopIteration, StopAsyncIteration, GeneratorExit]
