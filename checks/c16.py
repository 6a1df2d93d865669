"""Requests and replies: all short command sequences against a real mailbox; judged by Mailbox.tla."""
from checks.c15 import MC, alone, bulk, gen


def check(ctx):
    ctx.tlc("MailboxMC", MC % ("1", "1", "1, 2", ""), workers=8, timeout=6000)
    big = 0 if ctx.quick else 1
    cap = 40000 if ctx.quick else 600000

    def progs(cs, **kw):
        cs = [c for c in cs if "Q" in c]
        if len(cs) > cap:
            ctx.cov["sampled"] = True
            cs = ctx.rng.sample(cs, cap)
        return [{**kw, "cmds": c, "vo": i} for i, c in enumerate(cs)]

    # a started mailbox whose requests are answered later, in any order, several times, or never
    cs = gen(ctx, "QWABEVI", 7 + big, mq=2, ma=2)
    alone(ctx, progs(cs, kind="started"), "answers in any order")
    cs = gen(ctx, "QWABETI", 6 + big, mq=3, ma=2)
    alone(ctx, progs(cs, kind="slow"), "slow consumer")
    cs = gen(ctx, "QWAEVTI", 6 + big, mq=2, ma=2)
    alone(ctx, progs(cs, kind="started", notoken=True), "answers between turns of the loop")
    # a reply before the message is even posted
    cs = gen(ctx, "QWVATI", 6, mq=2, ma=1)
    alone(ctx, progs(cs, kind="started", early=True), "early replies")
    # a server that answers at once, with other messages in between
    cs = gen(ctx, "QPWTI", 7 + big, mp=2, mq=3)
    for kind in ("started", "slow"):
        alone(ctx, progs(cs, kind=kind, serve=True), "server")
    # explicit receives
    cs = gen(ctx, "QPRWAI", 6 + big, mp=1, mrc=2, mq=2, ma=2)
    alone(ctx, progs(cs, kind="bare"), "explicit receives")
    # the token is cancelled in between
    cs = gen(ctx, "QWAXTI", 6, mq=2, ma=2)
    alone(ctx, [p for p in progs(cs, kind="started") if "X" in p["cmds"]], "cancelled token")
    rng = ctx.rng
    alone(ctx, [{"kind": rng.choice(["started", "slow"]), "vo": i, "cmds": [rng.choice("QQQWWWAABBEEPTTI" + ("V" if i % 4 == 0 else "")) for _ in range(rng.randint(8, 30))]} for i in range(3000 if ctx.quick else 60000)], "long sequences")
    big = 1 if ctx.quick else 4
    bulk(ctx, [{"style": s, "n": n * big, "seed": k} for k, (s, n) in enumerate([("requests", 1200), ("requests", 200), ("served", 1200), ("served", 300)])], "hundreds of requests")
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("replies are given on the event loop's thread")
