from expression import pipe
from expression.collections import Seq, seq
from harness.core import watchdog
from harness.replay import StoreDriver, pairs, replay_cases, sweep, validate_store
from harness.terms import dec, enc, enc_exc

from .large import large
from .list_gen import VAL, big_ints, ints, seq_case
from .seq_forms import FORMS, SOURCES, full

GEN = "CONSTANT Depth = 1\nCONSTANT Size = %d\nSPECIFICATION Spec\nINVARIANT Emit\nPROPERTY Persistent\nCHECK_DEADLOCK FALSE\n"


def stage(rng):
    """A random stage int list -> int list, as a term."""
    fn = lambda *n: ["fn", rng.choice(n)]
    k = ["int", rng.choice([0, 1, 2, 3, 7, 30])]
    st = rng.choice([
        ["map", fn("inc", "neg", "mod2", "id")], ["filter", fn("pos", "even", "isnt1", "pT")], ["choose", fn("choose_pos", "choose_even")],
        ["collect", fn("dupL", "posL", "dupB")], ["skip", k], ["take", k], ["mapi", fn("add", "sub", "snd")], ["scan", fn("add", "snd", "sub"), rng.choice(VAL)],
        ["append", ["list", ints(rng, 4)]],
    ])
    return ["tup", [["str", st[0]], *st[1:]]]


TERMINAL = [["fold", ["fn", "sub"], ["int", 3]], ["sum"], ["length"], ["head"], ["try_find_index", ["fn", "pos"]], ["try_pick", ["fn", "choose_even"]],
            ["max"], ["min"], ["sum_by", ["fn", "neg"]], ["fold_back", ["fn", "sub"], ["int", 1]], ["pairwise"], ["zip", ["list", [["int", 1], ["int", 2]]]]]


def run(src, stages, fluent):
    x = src
    for st in stages:
        name, args = st[1][0][1], [dec(a) for a in st[1][1:]]
        if name == "len":
            name = "length"
        if name == "fold_back":
            x = seq.fold_back(args[0], x)(args[1])
        elif name in ("max", "min"):
            x = getattr(seq, name)(x)
        elif name == "zip" and not fluent:
            x = seq.zip(x)(args[0])
        elif fluent:
            x = getattr(x if isinstance(x, Seq) else Seq(x), name)(*args)
        elif args:
            x = pipe(x, getattr(seq, name)(*args))
        else:
            x = getattr(seq, name)(x)
    scalar = stages[-1][1][0][1] in {t[0] for t in TERMINAL[:-2]} | {"len"}
    return x if scalar else full(x)


def check(ctx):
    r = ctx.tlc("SeqGen", GEN % (3 if ctx.quick else 4), workers=8)
    replay_cases(ctx, r.items, FORMS, label="seq transitions")
    pairs(ctx, r.items, FORMS, label="seq functions", per_op=1)
    sweep(ctx, r.items, FORMS, label="seq transitions, every opaque value", per_op=12 if ctx.quick else 10**6)
    ctx.cov["exhaustive"] = True
    # random pipelines of several stages over longer sources, checked by the specification
    ctx.phase("code:seq pipelines")
    rng = ctx.rng
    events = []
    for i in range(1500 if ctx.quick else 30000):
        if i % 100 == 0:
            events.append({"ev": "reset"})
        src = big_ints(rng, "list") if rng.random() < 0.02 else ["list", ints(rng, 30 if rng.random() < 0.3 else 8)]
        stages = [stage(rng) for _ in range(rng.randint(1, 6))]
        if rng.random() < 0.5:
            t = rng.choice(TERMINAL)
            stages.append(["tup", [["str", "len" if t[0] == "length" else t[0]], *t[1:]]])
        name = rng.choice(list(SOURCES))
        fluent = rng.random() < 0.5
        with watchdog(30, str(stages)):
            try:
                ret = enc(run(SOURCES[name](dec(src)), stages, fluent))
            except Exception as e:  # noqa: BLE001
                ret = enc_exc(e)
        events.append({"ev": "call", "op": "pipeline", "form": f"{name} fluent={fluent}", "args": [src, *stages], "ret": ret, "calls": []})
    validate_store(ctx, "SeqTrace", events, "seq pipeline")
    # single operations over arbitrary elements and long sources
    ctx.phase("code:seq operations over arbitrary elements")
    ops = [o for o in FORMS if o not in ("map2", "map3", "delay", "unfold", "empty", "range1", "range2", "range3")]
    drv = StoreDriver(ctx, FORMS, lambda rng, tags: seq_case(rng, ops), None)
    for _ in range(60 if ctx.quick else 1500):
        drv.history(0, 40, 40)
    drv.validate("SeqTrace", "seq operation")
    large(ctx, FORMS, "SeqTrace", ops, "list", (10007,) if ctx.quick else (1025, 4099, 10007, 33000), "seq operations")
