from harness import exotic, terms
from harness.replay import StoreDriver, pairs, replay_cases, sweep

from .railway_forms import FORMS
from .railway_gen import SIG, gen_case, gen_lit

GEN = "CONSTANT Depth = 1\nSPECIFICATION Spec\nINVARIANT Emit\nPROPERTY Persistent\nCHECK_DEADLOCK FALSE\n"


def check(ctx):
    terms.BOOM_CLASSES = exotic.GEN + exotic.BASE + exotic.STOP
    r = ctx.tlc("OptionGen", GEN, workers=4)
    replay_cases(ctx, r.items, FORMS, label="option transitions")
    pairs(ctx, r.items, FORMS, label="option operations")
    sweep(ctx, r.items, FORMS, label="option transitions, every opaque value", per_op=30 if ctx.quick else 10**6)
    ops = [o for o in SIG if o.startswith("opt.")]
    drv = StoreDriver(ctx, FORMS, gen_case(ops + ["opt.bind", "opt.filter", "opt.map2", "res.swap", "res.to_option"]), gen_lit)
    ctx.phase("code:option histories")
    for _ in range(60 if ctx.quick else 2500):
        drv.history(6, 25)
    drv.validate("RailwayTrace", "option history")
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("wrapped values and callbacks are drawn from the finite domains of spec/Railway.tla (exhaustive) and from random nested terms (histories)")
