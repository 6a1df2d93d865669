from harness.replay import StoreDriver, pairs, replay_cases, sweep

from .block_forms import FORMS
from .large import large
from .list_gen import any_case, any_lit, big_ints, block_case, block_lit

GEN = "CONSTANT Depth = 1\nCONSTANT Size = %d\nSPECIFICATION Spec\nINVARIANT Emit\nPROPERTY Persistent\nCHECK_DEADLOCK FALSE\n"


def finding(op, args):
    """skip_last(0)/take_last(0) on a non-empty block: pinned by the repository's own tests."""
    return f"{op}-0" if op in ("skip_last", "take_last") and args[1] == ["int", 0] else None


def key_case(it, form, got):
    k = finding(it["op"], it["args"])
    if k is None:
        return None
    # exactly the recorded wrong answer: everything resp. nothing
    cont, xs = it["args"][0]
    return k if got == ([cont, []] if it["op"] == "skip_last" else [cont, xs]) else None


def key_event(ev, it):
    return finding(ev["op"], ev["args"]) if ev.get("ev") == "call" else None


def check(ctx):
    r = ctx.tlc("BlockGen", GEN % (3 if ctx.quick else 4), workers=8)
    replay_cases(ctx, r.items, FORMS, label="block transitions", keyfn=key_case)
    pairs(ctx, r.items, FORMS, label="block operations", skip=lambda it: it["op"] in ("skip_last", "take_last") and it["args"][1] == ["int", 0])
    sweep(ctx, r.items, FORMS, label="block transitions, every opaque value", keyfn=key_case, per_op=12 if ctx.quick else 10**6)
    def gen(rng, tags):
        while True:
            op, args = block_case(rng, tags)
            if finding(op, args) is None:
                return op, args

    drv = StoreDriver(ctx, FORMS, gen, block_lit)
    ctx.phase("code:block histories")
    for _ in range(60 if ctx.quick else 1500):
        drv.history(3, 40, proj_every=10)
    drv.validate("BlockTrace", "block history")
    # elements of every kind; long blocks
    ctx.phase("code:block histories over arbitrary elements")

    def other(case, **kw):
        def g(rng, tags):
            while True:
                op, args = case(rng, tags, **kw)
                if finding(op, args) is None:
                    return op, args
        return g

    drv = StoreDriver(ctx, FORMS, None, None)
    for k in range(80 if ctx.quick else 1500):
        rng = ctx.rng
        drv.history(3, 30, 10, [any_lit(rng) for _ in range(3)], other(any_case))
        if k % 4 == 0:
            drv.history(2, 12, 12, [any_lit(rng, big=1) for _ in range(2)], other(any_case, maxlen=320))
            drv.history(2, 12, 12, [big_ints(rng) for _ in range(2)], other(block_case, maxlen=320))
    drv.validate("BlockTrace", "block history")
    large(ctx, FORMS, "BlockTrace", list(FORMS), "block", (10007,) if ctx.quick else (1025, 4099, 10007, 33000), "block operations")
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("elements and callbacks from the finite domains of spec/BlockSpec.tla (exhaustive up to the size bound) and random int blocks of up to 40 elements (histories)")
