"""Operations on long inputs: every form of every operation, judged by the same specification as the short ones.

Forms that answer alike share one recorded event.
"""
from harness import terms
from harness.core import watchdog
from harness.replay import run_op, validate_store
from harness.terms import dec, enc

FNS = {"map": ["inc", "id"], "mapi": ["add", "snd"], "choose": ["choose_even", "choose_pos"], "filter": ["even", "isnt1", "p1"], "partition": ["even", "p1"], "forall": ["pT", "p1"],
       "iter": ["none"], "iterate": [], "fold": ["sub", "snd"], "fold_back": ["sub", "snd"], "scan": ["sub", "snd"], "reduce": ["sub"], "sum_by": ["inc", "mod2"], "max_by": ["mod2", "neg"], "min_by": ["mod2", "neg"],
       "try_find_index": ["pF", "is2000"], "try_pick": ["nothing"], "sort_with": ["mod2", "neg"]}
COLLECT = {"list": "dupL", "block": "dupB", "arr": "dupA"}


def cases(rng, ops, cont, n):
    """(op, further arguments) on the source in register 0."""
    num = lambda k: ["int", k]
    for op in ops:
        if op == "collect":
            yield op, [["fn", COLLECT[cont]]]
        elif op in ("fold", "fold_back", "scan"):
            for f in FNS[op]:
                yield op, [["fn", f], num(5)]
        elif op == "sort_with":
            for f in FNS[op]:
                yield op, [["fn", f], ["bool", rng.random() < 0.5]]
        elif op == "sort":
            yield op, [["bool", False]]
            yield op, [["bool", True]]
        elif FNS.get(op):
            for f in FNS[op]:
                if f != "is2000":
                    yield op, [["fn", f]]
        elif op in ("skip", "take", "skip_last", "take_last", "item", "getitem"):
            for k in (rng.randint(1, n // 2), n - 1, n - rng.randint(2, 9)):
                yield op, [num(k)]
        elif op in ("head", "seq.tail", "tail", "try_head", "length", "len", "to_list", "identity", "pairwise", "sum", "max", "min", "iterate"):
            yield op, []
        elif op in ("zip", "append", "add"):
            yield op, [("reg", 0)]
        elif op == "eq":
            yield op, [("reg", 0)]
        elif op == "indexed":
            yield op, [num(rng.randint(0, 5))]
        elif op == "contains":
            yield op, [num(77)]
        elif op == "slice":
            yield op, [num(3), num(-3)]
        elif op == "slice3":
            yield op, [["none"], ["none"], num(-1)]
            yield op, [num(1), ["none"], num(2)]
        elif op == "cons":
            yield op, [num(7)]


def large(ctx, forms, module, ops, cont, lengths, what, **kw):
    ctx.phase(f"code:{what} on long inputs")
    rng, ev = ctx.rng, []
    for n in lengths:
        if ctx.late():
            break
        terms.rotate(None)
        src = [cont, [["int", rng.randint(-3, 9)] for _ in range(n)]]
        for op, rest in cases(rng, [o for o in ops if o in forms], cont, n):
            ev += [{"ev": "reset"}, {"ev": "lit", "v": src}]
            args = [("reg", 0), *rest]
            seen = {}
            for name, fn in forms[op]:
                objs = dec(src)
                with watchdog(60, f"{op} {name} on {n} elements"):
                    ret, calls = run_op(fn, [objs if a[0] == "reg" else dec(a) for a in args])
                ctx.add(replayed_transitions=1)
                seen.setdefault(repr((ret, calls)), (name, ret, calls))
                if enc(objs) != src:
                    ctx.violation(f"{what} on a long input: the operand changed", {"op": op, "form": name, "args": rest, "length": n})
            for name, ret, calls in seen.values():
                if ev[-1]["ev"] == "call":
                    ev += [{"ev": "reset"}, {"ev": "lit", "v": src}]
                ev.append({"ev": "call", "op": op, "form": name, "args": [["reg", 1] if a[0] == "reg" else a for a in args], "ret": ret, "calls": calls})
    validate_store(ctx, module, ev, f"{what} on a long input", **kw)
