from harness import coop, terms
from harness.core import watchdog

from .builder_prog import Runner, random_prog, turn

GEN = """CONSTANTS N = %d
 Rich = %s
 Kinds = %s
SPECIFICATION Spec
INVARIANT Emit
INVARIANT FirstFailure
PROPERTY Sticky
PROPERTY Quiet
CHECK_DEADLOCK FALSE
"""
KINDS = ["option", "result", "try", "seq"]


def tset(xs):
    return "{" + ", ".join(f'"{x}"' for x in xs) + "}"


def compare(ctx, it, ret, log, how):
    if ret != it["ret"]:
        ctx.violation("the decorated call gives another result than the specification", {**it, "got": ret, "got_log": log, "how": how})
    elif log != it["log"]:
        ctx.violation("the statements that ran differ from the specification", {**it, "got": ret, "got_log": log, "how": how})


def check(ctx):
    runners = {k: Runner(k) for k in KINDS}
    n = 0
    for size, rich in ([(3, True), (5, False)] if ctx.quick else [(4, True), (7, False)]):
        r = ctx.tlc("BuilderGen", GEN % (size, str(rich).upper(), tset(KINDS)), workers=8, timeout=3000)
        ctx.phase("code:builder programs")
        for j, it in enumerate(r.items):
            run = runners[it["kind"]]
            with watchdog(20, f"program {it}"):
                turn(j, it["form"])
                fn = run.compile(it["form"], it["prog"], fresh=j % 4 == 0, shape=j // 4)
                for how in ("first call", "second call"):
                    ret, log = run.run(fn)
                    compare(ctx, it, ret, log, how)
                    n += 1
        ctx.sample({"spec_run": r.items[len(r.items) // 2]})
    ctx.add(traces_validated_against_impl=n)

    # two threads in bodies of one builder, or in one body
    ctx.phase("code:decorated bodies by two threads")
    terms.rotate(None)
    log = coop.Log()
    mine = {k: Runner(k, log=log) for k in KINDS}
    for kind in KINDS:
        its = [it for it in r.items if it["kind"] == kind and len(it["log"]) > 2]
        for k in range(40 if ctx.quick else 1500):
            a, b = ctx.rng.sample(its, 2)
            run = mine[kind]
            fa = run.compile(a["form"], a["prog"])
            fb, b = (fa, a) if k % 2 else (run.compile(b["form"], b["prog"]), b)
            terms.USE_TRY = kind == "try"
            with watchdog(60, f"two threads in {a['prog']}, {b['prog']}"):
                for got, sched in coop.together([lambda: run.here(fa), lambda: run.here(fb)], bound=1, max_runs=40):
                    ctx.add(schedules=1)
                    if got != [[a["ret"], a["log"]], [b["ret"], b["log"]]]:
                        ctx.violation("bodies run by two threads differ from the specification", {"kind": kind, "runs": [a, b], "shared": bool(k % 2), "got": got, "schedule": sched})
                        break
            terms.USE_TRY = False

    # long random programs, recursion and long loops: recorded, then validated by TLC
    ctx.phase("code:random builder programs")
    ev = []
    for j in range(600 if ctx.quick else 20000):
        kind = ctx.rng.choice(KINDS)
        form = ctx.rng.choice(["gen", "gen", "gen", "plain"])
        prog = random_prog(ctx.rng, kind, form, ctx.rng.randint(3, 25))
        depth = ctx.rng.choice([0, 1, 2])
        run = runners[kind]
        with watchdog(20, f"program {prog}"):
            turn(j, form)
            ret, log = run.run(run.compile(form, prog, shape=j), depth)
        ev.append({"kind": kind, "prog": prog, "depth": depth, "ret": ret, "log": log})
    for kind in KINDS:
        good = ["some", ["int", 1]] if kind in ("option", "seq") else ["ok", ["int", 1]]
        for prog in ([["rep", 1500 if kind == "seq" else 12000, ["int", 2]]], [["bind", good]] * 300, [["yield", ["int", 2]]] * 300 + [["return", ["int", 0]]],
                     [["rep", 1100, ["int", 2]], ["raise"]], [["rep", 1200 if kind == "seq" else 11000, ["int", 2]], ["yield", ["int", 3]]]):
            run = runners[kind]
            with watchdog(60, f"long program of kind {kind}"):
                ret, log = run.run(run.compile("gen", prog), 0)
            ev.append({"kind": kind, "prog": prog, "depth": 0, "ret": ret, "log": log})
    validate(ctx, ev)
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("failing binds inside effect.seq are not specified")


def validate(ctx, ev):
    t = ctx.tlc("BuilderTrace", "SPECIFICATION Spec\nINVARIANT Done\nCHECK_DEADLOCK FALSE\n", files={"traces.ndjson": ev}, workers=1, timeout=3000)
    done = [i for i in t.items if "validated" in i]
    if not done or done[0]["validated"] != len(ev):
        raise RuntimeError("trace validation incomplete")
    for m in t.items:
        if "mismatch" in m:
            ctx.violation("a recorded run of a decorated body is not a run of the specification", {"recorded": ev[m["line"] - 1], "expected": m["expected"]})
    ctx.add(traces_validated_against_impl=len(ev), trace_events=sum(len(e["log"]) for e in ev))
    ctx.sample({"recorded_run": min(ev, key=lambda e: abs(len(e["log"]) - 8))})
