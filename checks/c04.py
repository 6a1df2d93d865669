import asyncio

from harness import terms
from harness.core import watchdog

from .builder_prog import ParRunner, Runner, random_prog, turn
from .c03 import GEN, compare, tset, validate

KINDS = ["aoption", "aresult", "atry"]
PAR = "CONSTANTS Kinds = %s\n Calls = %d\n Few = %s\n MaxCancel = %d\nSPECIFICATION Spec\nINVARIANT Emit\nINVARIANT Independent\nINVARIANT CancelStops\nCHECK_DEADLOCK FALSE\n"


def check(ctx):
    runners = {k: Runner(k) for k in KINDS}
    n = 0

    async def singles(items):
        nonlocal n
        for j, it in enumerate(items):
            run = runners[it["kind"]]
            turn(j, it["form"])
            fn = run.compile(it["form"], it["prog"], fresh=j % 4 == 0, shape=j // 4)
            for how in ("first call", "second call"):
                with watchdog(20, f"program {it}"):
                    ret, log = await run.arun(fn)
                compare(ctx, it, ret, log, how)
                n += 1

    for size, rich in ([(3, True), (4, False)] if ctx.quick else [(4, True), (7, False)]):
        r = ctx.tlc("BuilderGen", GEN % (size, str(rich).upper(), tset(KINDS)), workers=8, timeout=3000)
        ctx.phase("code:async builder programs")
        asyncio.run(singles(r.items))
        ctx.sample({"spec_run": r.items[len(r.items) // 2]})

    # concurrent calls under every interleaving of their suspension points
    pars = {k: ParRunner(k) for k in KINDS}

    async def many(items):
        nonlocal n
        for j, it in enumerate(items):
            run = pars[it["kind"]]
            turn(j, "gen")
            with watchdog(20, f"calls {it}"):
                try:
                    rets, log = await run.par(run.compile_all(it["forms"], it["progs"], shared=j % 3 != 0), it["sched"])
                except terms.HangError as e:
                    ctx.violation("a call neither ends nor suspends", {**it, "how": str(e)})
                    continue
            n += 1
            if rets != it["rets"] or log != it["log"]:
                ctx.violation("concurrent calls differ from the specification", {**it, "got": rets, "got_log": log})
            # several calls between two suspension points at a time: whatever the library does in between, each call keeps to its own
            if j % 2 == 0 and min(it["sched"], default=0) >= 0 and not any(t[0] == "call" for p in it["progs"] for t in p):
                with watchdog(20, f"calls {it}"):
                    try:
                        rets, log = await run.par(run.compile_all(it["forms"], it["progs"], shared=j % 3 != 0), it["sched"], ctx.rng)
                    except terms.HangError as e:
                        ctx.violation("a call neither ends nor suspends", {**it, "how": str(e), "burst": True})
                        continue
                n += 1
                mine = lambda lg: [[x for x in lg if x[1] // 10000 == c + 1] for c in range(len(rets))]
                if rets != it["rets"] or mine(log) != mine(it["log"]):
                    ctx.violation("calls running at the same time differ from the specification", {**it, "got": rets, "got_log": log})

    for calls, few, kinds, cancels, cap in [(2, False, KINDS, 0, 12000), (2, False, KINDS, 2, 6000), (3, True, ["aresult"] if ctx.quick else KINDS, 0, 12000)]:
        r = ctx.tlc("BuilderPar", PAR % (tset(kinds), calls, str(few).upper(), cancels), workers=8, timeout=3000)
        items = [x for x in r.items if not cancels or min(x["sched"], default=0) < 0]
        if ctx.quick and len(items) > cap:
            items = ctx.rng.sample(items, cap)
        ctx.phase("code:concurrent async calls")
        asyncio.run(many(items))
        ctx.add(schedules=len(items))
        ctx.sample({"spec_schedule": items[len(items) // 2]})
    ctx.add(traces_validated_against_impl=n)

    # long random programs
    ctx.phase("code:random async builder programs")
    ev = []

    async def rand():
        for j in range(400 if ctx.quick else 15000):
            kind = ctx.rng.choice(KINDS)
            form = ctx.rng.choice(["gen", "co"])
            prog = random_prog(ctx.rng, kind, form, ctx.rng.randint(3, 25))
            depth = ctx.rng.choice([0, 1, 2])
            run = runners[kind]
            with watchdog(20, f"program {prog}"):
                turn(j, form)
                ret, log = await run.arun(run.compile(form, prog, shape=j), depth)
            ev.append({"kind": kind, "prog": prog, "depth": depth, "ret": ret, "log": log})
        for kind in KINDS:
            good = ["some" if kind == "aoption" else "ok", ["int", 1]]
            for prog in ([["yield", ["int", 2]]] * 300, [["bind", good]] * 300, [["rep", 12000, ["int", 2]]], [["rep", 11000, ["int", 2]], ["raise"]], [["rep", 11000, ["int", 2]], ["yield", ["int", 3]]]):
                run = runners[kind]
                ret, log = await run.arun(run.compile("gen", prog), 0)
                ev.append({"kind": kind, "prog": prog, "depth": 0, "ret": ret, "log": log})

    asyncio.run(rand())
    validate(ctx, ev)
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("interleavings: 2 calls (all kinds, 14 bodies each form) and 3 calls (5 bodies), every schedule of their suspension points")
