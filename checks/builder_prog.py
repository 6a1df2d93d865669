"""Compiles a program of spec/Builder.tla to a real decorated Python body and runs it."""
from __future__ import annotations

import asyncio
import functools
import types

from expression import effect
from harness import exotic, terms
from harness.terms import dec, enc, enc_exc

MAKE = {"option": effect.option, "result": effect.result, "try": effect.try_, "seq": effect.seq,
        "aoption": effect.async_option, "aresult": effect.async_result, "atry": effect.async_try}
SHARED = {k: m() for k, m in MAKE.items()}
ASYNC = {"aoption", "aresult", "atry"}


# exception classes that reach the builder as they are, per form of body
CLASSES = {"gen": exotic.GEN, "plain": exotic.GEN + exotic.STOP + exotic.BASE[:2], "co": [*exotic.GEN, StopAsyncIteration]}


def turn(k, form):
    """Bind the opaque values and the exception for the k-th program."""
    terms.rotate(k, classes=CLASSES[form])


def lines(prog, is_async, form, base, V, ind):
    """Source lines of the statements of prog; values go to V."""
    out = []
    bind = "await" if is_async else "yield from"
    blocks = []
    n = base
    i = 0
    toks = list(prog) + [["end"]] * (sum(t[0] in ("tryF", "tryE") for t in prog) - sum(t[0] == "end" for t in prog))
    for i, t in enumerate(toks):
        n = base + i + 1
        pad = "    " * (ind + len(blocks))
        k = t[0]
        if k in ("tryF", "tryE"):
            out.append(f"{pad}try:")
            out.append(f"{pad}    pass")
            blocks.append(k)
            continue
        if k == "end":
            b = blocks.pop()
            pad = "    " * (ind + len(blocks))
            if b == "tryF":
                out += [f"{pad}finally:", f"{pad}    LOG.append(['fin', {n}])"]
            else:
                out += [f"{pad}except Boom():", f"{pad}    LOG.append(['exc', {n}])"]
            continue
        out.append(f"{pad}LOG.append(['at', {n} + base])")
        got = lambda e: f"{pad}LOG.append(['got', {n} + base, enc({e})])"
        if k == "yield":
            V.append(t[1])
            out.append(got(f"(yield V({len(V) - 1}))"))
        elif k == "arg":
            out.append(got("(yield arg)"))
        elif k == "bind":
            V.append(t[1])
            out.append(got(f"({bind} V({len(V) - 1}))"))
        elif k == "susp":
            out.append(f"{pad}await susp(arg)")
        elif k == "raise":
            out.append(f"{pad}raise boom()")
        elif k == "return":
            if is_async and form == "gen":
                out.append(f"{pad}return")
            else:
                V.append(t[1])
                out.append(f"{pad}return V({len(V) - 1})")
        elif k == "rep":
            V.append(t[2])
            out.append(f"{pad}for _ in range({t[1]}):")
            out.append(f"{pad}    yield V({len(V) - 1})")
        elif k == "call":
            inner = f"INNER[{t[1]}]()"
            out.append(got(f"({bind} ({'await ' if is_async else ''}{inner}))"))
        elif k == "rec":
            out.append(f"{pad}if depth:")
            out.append("    " + got(f"({bind} ({'await ' if is_async else ''}SELF[0](arg, depth=depth - 1, base=1000 * depth)))"))
        else:
            raise ValueError(k)
    return [o.replace(f"['fin', {0}", "['fin', 0") for o in out]


def shaped(fn, k):
    """The body as a function, wrapped by another decorator, partially applied, a method, a callable object."""
    if k % 6 == 1:
        return functools.wraps(fn)(lambda *a, **kw: fn(*a, **kw))
    if k % 6 == 2:
        return lambda *a, **kw: fn(*a, **kw)
    if k % 6 == 3:
        return functools.update_wrapper(functools.partial(fn, base=0), fn)
    if k % 6 == 4:
        return types.MethodType(functools.wraps(fn)(lambda self, *a, **kw: fn(*a, **kw)), object())
    if k % 6 == 5:
        return CallableBody(fn)
    return fn


class CallableBody:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a, **kw):
        return self.fn(*a, **kw)


def compile_body(kind, form, prog, base=0, log=None, susp=None, inner=None, builder=None, shape=0):
    is_async = kind in ASYNC
    V = []
    body = lines(prog, is_async, form, base, V, 1)
    body = [b.replace("(['fin', ", "(['fin', base + ").replace("(['exc', ", "(['exc', base + ") for b in body]
    src = [f"{'async ' if is_async else ''}def body(arg=None, *, depth=0, base=0):"]
    if form == "gen":
        src.append("    if 0: yield")
    src += body or ["    pass"]
    selfbox = [None]
    ns = {"LOG": log, "V": lambda i: dec(V[i]), "enc": enc, "boom": terms.make_boom, "Boom": terms.boom_class, "susp": susp, "INNER": inner, "SELF": selfbox}
    exec(compile("\n".join(src), "<body>", "exec"), ns)  # noqa: S102
    selfbox[0] = (builder or SHARED[kind])(shaped(ns["body"], shape))
    return selfbox[0]


def inner_prog(kind, k):
    opt = kind.endswith("option")
    tr = kind.endswith("try")
    fail = ["nothing"] if opt else ["error", ["exc", "KeyError"] if tr else ["str", "inner"]]
    good = ["some", ["int", 5]] if opt else ["ok", ["int", 5]]
    if k == 1:
        return [["bind", good], ["return", ["int", 3]]]
    if k == 2:
        return [["return", ["none"]]] if kind == "seq" else [["bind", good], ["bind", fail], ["return", ["int", 3]]]
    if k == 3:
        return [["bind", good], ["raise"]]
    return [["susp"], ["bind", good], ["return", ["none"]]] if kind in ASYNC else [["yield", ["int", 4]]]


class Runner:
    """Runs programs of one kind; INNER bodies are compiled once and shared by all programs (so they must keep no state)."""

    def __init__(self, kind, susp=None, log=None):
        self.kind = kind
        self.log = [] if log is None else log
        self.susp = susp or (lambda arg: asyncio.sleep(0))
        form = "co" if kind in ASYNC else "gen"
        self.inner = {}
        for k in (1, 2, 3, 4):
            self.inner[k] = compile_body(kind, form, inner_prog(kind, k), 100 * k, self.log, self.susp, self.inner)

    def compile(self, form, prog, fresh=False, shape=0):
        terms.USE_TRY = self.kind.endswith("try")
        return compile_body(self.kind, form, prog, 0, self.log, self.susp, self.inner, MAKE[self.kind]() if fresh else None, shape)

    def run(self, fn, depth=0):
        terms.USE_TRY = self.kind.endswith("try")
        del self.log[:]
        try:
            r = fn(41, depth=depth)
            ret = ["list", [enc(x) for x in r]] if self.kind == "seq" else enc(r)
        except terms.HangError:
            raise
        except BaseException as e:  # noqa: BLE001
            ret = enc_exc(e)
        finally:
            terms.USE_TRY = False
        return ret, list(self.log)

    def here(self, fn):
        """A run by one of several threads."""
        try:
            r = fn(41)
            ret = ["list", [enc(x) for x in r]] if self.kind == "seq" else enc(r)
        except (terms.HangError, terms.Abort):
            raise
        except BaseException as e:  # noqa: BLE001
            ret = enc_exc(e)
        return [ret, self.log.take()]

    async def arun(self, fn, depth=0):
        terms.USE_TRY = self.kind.endswith("try")
        del self.log[:]
        try:
            ret = enc(await fn(41, depth=depth))
        except (terms.HangError, asyncio.CancelledError):
            raise
        except BaseException as e:  # noqa: BLE001
            ret = enc_exc(e)
        finally:
            terms.USE_TRY = False
        return ret, list(self.log)


def random_prog(rng, kind, form, n, rec=True):
    is_async = kind in ASYNC
    opt = kind.endswith("option")
    val = lambda: rng.choice([["none"], ["int", rng.randint(0, 9)], ["str", ""], ["nothing"], ["some", ["none"]], ["ok", ["int", 1]], ["error", ["int", 2]],
                              ["bool", False], ["list", []], ["block", []], ["weird", 1], ["weird", 1], ["weird", 2]])
    err = lambda: ["nothing"] if opt else ["error", rng.choice([["exc", "KeyError"], ["exc", "Boom"]]) if kind.endswith("try") else val()]
    ok = lambda: ["some" if opt else "ok", val()]
    prog, depth = [], 0
    for _ in range(n):
        x = rng.random()
        if form == "plain":
            k = rng.choice(["raise", "return", "try", "end"] if x < 0.5 else ["try", "end"])
        elif x < 0.3:
            k = "bind"
        elif x < 0.38:
            k = "fail"
        elif x < 0.55 and form == "gen":
            k = "yield"
        elif x < 0.62:
            k = "try"
        elif x < 0.72:
            k = "end"
        elif x < 0.76:
            k = "raise"
        elif x < 0.79:
            k = "return"
        elif x < 0.87:
            k = "call"
        elif x < 0.9 and rec and not any(t[0] == "rec" for t in prog):
            k = "rec"
        elif x < 0.95:
            k = "susp" if is_async else "rep"
        else:
            k = "arg"
        if k == "bind":
            prog.append(["bind", ok() if kind != "seq" else rng.choice([["seq", [val() for _ in range(rng.randint(0, 3))]], ["some", val()]])])
        elif k == "fail":
            if kind != "seq":
                prog.append(["bind", err()])
        elif k == "yield":
            prog.append(["yield", val()])
        elif k == "try":
            prog.append([rng.choice(["tryF", "tryE"])])
            depth += 1
        elif k == "end":
            if depth:
                prog.append(["end"])
                depth -= 1
        elif k == "return":
            prog.append(["return", ["none"] if is_async and form == "gen" else val()])
        elif k == "call":
            prog.append(["call", rng.choice([1, 1, 1, 2, 3, 4])])
        elif k == "rep":
            if form == "gen":
                prog.append(["rep", rng.choice([0, 1, 2, 5, 40]), val()])
        elif k == "arg":
            if form == "gen":
                prog.append(["arg"])
        else:
            prog.append([k])
    return prog


class ParRunner(Runner):
    """Several calls at once, each suspended at its gates; the schedule says which call goes on next."""

    def __init__(self, kind):
        self.gates = {}
        super().__init__(kind, susp=self.gate)

    async def gate(self, c):
        fut = asyncio.get_running_loop().create_future()
        self.gates[c] = fut
        await fut

    def compile_all(self, forms, progs, shared):
        """One decorated function per call, or one shared function if the bodies have the same form."""
        if not shared or len(set(forms)) > 1:
            return [compile_body(self.kind, f, p, 10000 * (i + 1), self.log, self.susp, self.inner) for i, (f, p) in enumerate(zip(forms, progs))]
        V = []
        src = ["async def body(arg=None, *, depth=0, base=0):"]
        if forms[0] == "gen":
            src.append("    if 0: yield")
        for i, p in enumerate(progs):
            src.append(f"    if arg == {i + 1}:")
            src += lines(p, True, forms[0], 10000 * (i + 1), V, 2) or ["        pass"]
        ns = {"LOG": self.log, "V": lambda i: dec(V[i]), "enc": enc, "boom": terms.make_boom, "Boom": terms.boom_class, "susp": self.susp, "INNER": self.inner, "base": 0}
        exec(compile("\n".join(src), "<body>", "exec"), ns)  # noqa: S102
        fn = SHARED[self.kind](ns["body"])
        return [fn] * len(progs)

    async def par(self, fns, sched, rng=None):
        """sched: the calls go on one after the other as it says.  rng: they go on by chance, several at a time."""
        terms.USE_TRY = self.kind.endswith("try")
        del self.log[:]
        self.gates.clear()
        rets = {}

        async def call(c, fn):
            await self.gate(c)
            try:
                rets[c] = enc(await fn(c))
            except asyncio.CancelledError:
                rets[c] = ["cancelled"]
            except BaseException as e:  # noqa: BLE001
                rets[c] = enc_exc(e)

        tasks = {c + 1: asyncio.ensure_future(call(c + 1, fn)) for c, fn in enumerate(fns)}

        async def settle(c):
            for _ in range(200):
                if c in rets or c in self.gates:
                    return
                await asyncio.sleep(0)
            raise terms.HangError(f"call {c} neither ends nor suspends")

        try:
            for c in tasks:
                await settle(c)
            idle = 0
            while rng and len(rets) < len(tasks):
                for c in [c for c in self.gates if rng.random() < 0.8]:
                    self.gates.pop(c).set_result(None)
                    idle = 0
                for _ in range(rng.randint(0, 3)):
                    await asyncio.sleep(0)
                idle += 1
                if idle > 500:
                    raise terms.HangError("a call neither ends nor suspends")
            for c in [] if rng else sched:
                if c < 0:
                    self.gates.pop(-c, None)
                    tasks[-c].cancel()
                    await settle(-c)
                    continue
                fut = self.gates.pop(c, None)
                if fut is None:
                    break  # ended early: the log tells
                fut.set_result(None)
                await settle(c)
            ok = [rets.get(c) or ["unfinished"] for c in sorted(tasks)]
        finally:
            terms.USE_TRY = False
            for t in tasks.values():
                t.cancel()
            await asyncio.gather(*tasks.values(), return_exceptions=True)
        return ok, list(self.log)
