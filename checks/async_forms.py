"""AsyncSeq operations driven without an event loop; sources suspend before every element."""
import types

from expression import pipe
from expression.collections import asyncseq
from expression.collections.asyncseq import AsyncSeq


@types.coroutine
def suspend():
    yield


class ASource:
    """Asynchronous source: counts delivered elements; suspends `gap` times before each."""

    def __init__(self, xs, gap=1, infinite=False):
        self.xs, self.n, self.gap, self.infinite = list(xs), 0, gap, infinite

    def __aiter__(self):
        return self._gen()

    async def _gen(self):
        i = 0
        while self.infinite or i < len(self.xs):
            for _ in range(self.gap):
                await suspend()
            self.n += 1
            yield self.xs[i] if i < len(self.xs) else 1000 + i
            i += 1


class AIter:
    """One-shot asynchronous iterator without asend/aclose."""

    def __init__(self, xs):
        self.it = iter(xs)

    def __aiter__(self):
        return self

    async def __anext__(self):
        await suspend()
        try:
            return next(self.it)
        except StopIteration:
            raise StopAsyncIteration from None


async def agen(xs):
    for x in xs:
        yield x


SOURCES = {"class": ASource, "agen": agen, "iter": AIter, "AsyncSeq": lambda xs: AsyncSeq(ASource(xs)), "nogap": lambda xs: ASource(xs, 0)}


def drive(coro, limit=1000000):
    for _ in range(limit):
        try:
            coro.send(None)
        except StopIteration as e:
            return e.value
    raise RuntimeError("coroutine does not end")


async def alist(ai):
    out = []
    async for x in ai:
        out.append(x)
        if len(out) > 100000:
            raise RuntimeError("sequence does not end")
    return out


def akey(fn):
    """Callbacks that return plain lists -> async iterables."""
    def f(x):
        return agen(fn(x))

    return f


async def m_result(x):
    return await x


def build_method(s, op, args):
    """Coroutine giving the (async iterable or scalar) result of the method."""
    s = s if isinstance(s, AsyncSeq) else AsyncSeq(s)

    async def go():
        if op == "scan":
            return s.scan(*args)
        return await getattr(s, op)(*args)

    return go()


MODULE = {"map", "filter", "choose", "collect", "append"}
SCALAR = {"fold", "fold_back", "head", "length", "sum", "max", "min"}


def adapt(op, args):
    if op == "collect":
        return [akey(args[0])]
    return args


def method_form(op, name, mk):
    def run(s, *args):
        async def go():
            src = mk(s) if op != "concat" else mk([agen(x) for x in s])
            r = await build_method(src, op, adapt(op, args))
            return r if op in SCALAR else await alist(r)

        return drive(go())

    return (f"method:{name}", run)


def module_form(op, name, mk):
    def run(s, *args):
        a = [mk(args[0])] if op == "append" else adapt(op, args)
        return drive(alist(pipe(mk(s), getattr(asyncseq, op)(*a))))

    return (f"module:{name}", run)


OPS = ["map", "choose", "collect", "concat", "filter", "fold", "fold_back", "scan", "take", "skip", "head", "tail", "length", "sum", "max", "min"]
FORMS = {}
for _op in OPS:
    key = "seq.tail" if _op == "tail" else _op
    FORMS[key] = [method_form(_op, n, mk) for n, mk in SOURCES.items()]
for _op in MODULE:
    FORMS.setdefault(_op, [])
    FORMS[_op] = FORMS[_op] + [module_form(_op, n, mk) for n, mk in SOURCES.items()]
FORMS["identity"] = [(n, lambda s, mk=mk: drive(alist(AsyncSeq(mk(s))))) for n, mk in SOURCES.items()]
def of_class(mk):
    """The elements of an AsyncSeq, also through one of its methods."""
    def run(*a):
        xs = drive(alist(mk(*a)))
        ys = drive(alist(drive(mk(*a).map(lambda x: x))))
        return xs if xs == ys else ["through map", xs, ys]

    return run


FORMS["empty"] = [("class", of_class(AsyncSeq.empty)), ("module", lambda: drive(alist(asyncseq.empty())))]
FORMS["repeat"] = [("module", lambda v, n: drive(alist(asyncseq.repeat(v, n))))]
for _k in ("range1", "range2", "range3"):
    FORMS[_k] = [("class", of_class(AsyncSeq.range)), ("module", lambda *a: drive(alist(asyncseq.range(*a))))]
