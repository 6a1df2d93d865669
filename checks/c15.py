"""Mailbox delivery: all short command sequences on one loop, and all schedules of posting threads; judged by Mailbox.tla."""
import json

from checks import mailbox_run as mr
from harness.replay import accept

MC = "CONSTANTS Posts = {%s}\n Recvs = {%s}\n Reqs = {%s}\nSPECIFICATION Spec\nINVARIANT NoLoss\nINVARIANT Fifo\nINVARIANT FirstWins\nPROPERTY NothingAfterCancel\n%sCHECK_DEADLOCK FALSE\n"
GEN = "CONSTANTS Cmds = {%s}\n Len_ = %d\n MP = %d\n MR = %d\n MC = %d\n MX = %d\n MQ = %d\n MA = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def q(s):
    return ", ".join(f'"{x}"' for x in s)


def gen(ctx, cmds, n, mp=3, mrc=3, mc=2, mx=1, mq=0, ma=0):
    return [i["cmds"] for i in ctx.tlc("MailboxGen", GEN % (q(cmds), n, mp, mrc, mc, mx, mq, ma), workers=8, timeout=1000).items]


def judge(ctx, hs, what):
    uniq = {}
    for h in hs:
        uniq.setdefault(json.dumps([h["h"], h["held"]]), h)
    hs = list(uniq.values())
    for i in range(0, len(hs), 25000):
        accept(ctx, "MailboxTrace", hs[i:i + 25000], f"a history ({what}) is no behaviour of the specification", timeout=3000)


def alone(ctx, progs, what):
    ctx.phase(f"code:{what}")
    ctx.add(programs=len(progs), schedules=len(progs))
    chunks = [progs[i:i + 200] for i in range(0, len(progs), 200)]
    judge(ctx, [h for c in ctx.parallel(mr.alone_job, chunks) for h in c], what)


def threads(ctx, jobs, what):
    ctx.phase(f"code:{what}")
    hs = []
    for n, xs in ctx.parallel(mr.thread_job, jobs):
        ctx.add(schedules=n)
        hs += xs
    ctx.add(programs=len(jobs))
    judge(ctx, hs, what)


def bulk(ctx, progs, what):
    ctx.phase(f"code:{what}")
    hs = ctx.parallel(mr.bulk_job, progs)
    ctx.add(programs=len(progs), schedules=len(progs))
    accept(ctx, "MailboxBulk", hs, f"a history ({what}) is no behaviour of the specification", timeout=1000,
           show=lambda t: {"prog": t["prog"], "end": t["h"][-3:], "events": len(t["h"])})


def check(ctx):
    ctx.tlc("MailboxMC", MC % ("1, 2", "1, 2", "1" if not ctx.quick else "", "PROPERTY Served\n"), workers=8, timeout=6000)
    ctx.tlc("MailboxMC", MC % ("1, 2, 3", "1, 2" if ctx.quick else "1, 2, 3", "", ""), workers=8, timeout=6000)
    n = 7 if ctx.quick else 8
    alone(ctx, [{"kind": "bare", "cmds": c} for c in gen(ctx, "PRCXTI", n)], "one loop")
    started = gen(ctx, "PXTI", n, mp=5)
    alone(ctx, [{"kind": k, "cmds": c} for k in ("started", "slow") for c in started], "started mailbox")
    alone(ctx, [{"kind": k, "cmds": c, "notoken": True} for k in ("started", "slow") for c in started if "X" not in c], "started mailbox without token")
    alone(ctx, [{"kind": "timeout", "cmds": c} for c in gen(ctx, "PRCTI", n, mrc=1)], "consumer with timeouts")
    rng = ctx.rng
    alone(ctx, [{"kind": "bare", "cmds": [rng.choice("PPPRRRCTTI" + ("X" if j % 8 == 0 else "")) for _ in range(rng.randint(8, 24))]} for j in range(2500 if ctx.quick else 40000)], "long sequences")
    big = 1 if ctx.quick else 8
    bulk(ctx, [{"style": s, "n": n * big, "seed": k} for k, (s, n) in enumerate([("backlog", 12000), ("backlog", 300), ("bursts", 8000), ("bursts", 3000), ("bursts", 500)])], "thousands of messages")
    cap = 4000 if ctx.quick else 200000
    jobs = []
    for th in ([["P"]], [["P", "P"]], [["P"], ["P"]], [["P", "P"], ["P"]], [["X"]], [["P"], ["X"]]):
        for kind, cmds in (("bare", "RI"), ("bare", "RTRI"), ("bare", "PRI"), ("bare", "RTC"), ("bare", "RTCR"), ("started", "I"), ("started", "PT"), ("slow", "TP")):
            p = {"kind": kind, "cmds": list(cmds), "threads": th}
            jobs.append((p, 2, False, cap))
            jobs.append((p, 1 if ctx.quick else 2, True, cap))
    threads(ctx, jobs, "posting threads")
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("threads: schedules with at most 2 preemptions between statements (1 between expressions) of the package, up to a cap per program; a bare mailbox whose token is cancelled may let a waiting receive wait until its next use")
