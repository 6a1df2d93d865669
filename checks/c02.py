from harness import exotic, terms
from harness.replay import StoreDriver, pairs, replay_cases, sweep

from .c01 import GEN
from .railway_forms import FORMS
from .railway_gen import SIG, gen_case, gen_lit


def _try(on):
    def f():
        terms.USE_TRY = on

    return f


def check(ctx):
    terms.BOOM_CLASSES = exotic.GEN + exotic.BASE + exotic.STOP
    r = ctx.tlc("ResultGen", GEN, workers=4)
    # every transition on Ok/Error operands and on Success/Failure operands
    replay_cases(ctx, r.items, FORMS, label="result transitions", variants=((), (_try(True), _try(False))))
    pairs(ctx, r.items, FORMS, label="result operations")
    sweep(ctx, r.items, FORMS, label="result transitions, every opaque value", variants=((_try(False), _try(False)),), per_op=30 if ctx.quick else 10**6)
    ops = [o for o in SIG if o.startswith("res.")]
    ctx.phase("code:result histories")
    for use_try in (False, True):
        drv = StoreDriver(ctx, FORMS, gen_case(ops + ["res.bind", "res.filter", "res.map2", "opt.to_result"]), gen_lit)
        terms.USE_TRY = use_try
        try:
            for _ in range(40 if ctx.quick else 1500):
                drv.history(6, 25)
        finally:
            terms.USE_TRY = False
        drv.validate("RailwayTrace", "result history")
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("payloads and callbacks are drawn from the finite domains of spec/Railway.tla (exhaustive) and from random nested terms (histories)")
