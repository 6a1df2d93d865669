from expression import Error, Result, pipe
from expression.extra import option as xopt
from expression.extra import result as xres
from harness import terms
from harness.core import watchdog
from harness.replay import pairs, replay_cases, sweep, validate_store
from harness.terms import dec, run_op

from .c02 import _try

GEN = "CONSTANT Size = %d\nSPECIFICATION GSpec\nINVARIANT Emit\nINVARIANT Assoc\nINVARIANT NoCallsAfterFailure\nCHECK_DEADLOCK FALSE\n"


def catching(make, kw=False):
    """Runs a caught function; the Error must hold the very exception that was raised."""

    def form(*a):
        *cls, f, x = a if len(a) < 4 or isinstance(a[2], terms.Fn) else (a[0], a[1], a[2:])
        raised = []

        def fn(*args, **kws):
            try:
                return f(*args, *kws.values())
            except BaseException as e:
                raised.append(e)
                raise

        g = make(fn, [terms.EXC[c] for c in cls])
        args = x if isinstance(x, tuple) else (x,)
        out = g(*args[:-1], last=args[-1]) if kw else g(*args)
        if raised and not (isinstance(out, Result) and out.is_error() and out.error is raised[0]):
            return ("not the raised exception", out)
        return out

    return form


def nest(fn, classes):
    for c in reversed(classes):
        fn = xres.catch(exception=c)(fn)
    return fn


def nest_direct(fn, classes):
    for c in reversed(classes):
        fn = xres.catch(fn, exception=c)
    return fn


CATCH = [("decorator", catching(nest)), ("direct", catching(nest_direct)), ("kwargs", catching(nest, kw=True))]


def split(f):
    """Composing pipelines of pipelines is the same as one pipeline."""

    def go(x, *fns):
        k = len(fns) // 2
        return f(f(*fns[:k]), f(*fns[k:]))(x)

    return go


FORMS = {
    "pipeline.result": [("call", lambda x, *fns: xres.pipeline(*fns)(x)), ("pipe", lambda x, *fns: pipe(x, xres.pipeline(*fns))), ("split", split(xres.pipeline))],
    "pipeline.option": [("call", lambda x, *fns: xopt.pipeline(*fns)(x)), ("pipe", lambda x, *fns: pipe(x, xopt.pipeline(*fns))), ("split", split(xopt.pipeline))],
    "traverse": [("call", lambda f, xs: xres.traverse(f, xs))],
    "sequence": [("call", lambda xs: xres.sequence(xs))],
    "catch": CATCH,
    "catch2": CATCH,
}
FREE_CALLS = {"traverse", "sequence"}


def check(ctx):
    terms.BOOM_CLASSES = []  # which exception it is matters here
    r = ctx.tlc("ComposeGen", GEN % (3 if ctx.quick else 4), workers=8, timeout=3000)
    for it in r.items:
        if it["op"] in FREE_CALLS:
            del it["calls"]
    replay_cases(ctx, r.items, FORMS, label="composition", tuples=False)
    pairs(ctx, r.items, FORMS, label="compositions")
    sweep(ctx, r.items, FORMS, label="composition, every opaque value", tuples=False, per_op=20 if ctx.quick else 400)
    tries = [i for i in r.items if i["op"] in FREE_CALLS]
    replay_cases(ctx, tries, FORMS, label="composition of Try values", tuples=False, variants=((_try(True), _try(False)),))

    # long pipelines and blocks
    ctx.phase("code:long compositions")
    rng = ctx.rng
    ev = []
    fn = lambda *names: ["fn", rng.choice(names)]
    for _ in range(400 if ctx.quick else 6000):
        op = rng.choice(["pipeline.result", "pipeline.option", "traverse", "sequence"])
        n = rng.choice([0, 1, 2, 5, 9, 20, 60])
        stop = rng.random() < 0.7
        if op == "pipeline.result":
            args = [["int", rng.randint(0, 3)]] + [fn("ok_id", "ok_id", "ok_none", "ok_ok") for _ in range(n)]
            if stop and n:
                args[rng.randint(1, n)] = fn("err_g", "err_none", "boom", "ok_f")
        elif op == "pipeline.option":
            args = [["int", rng.randint(0, 3)]] + [fn("some_id", "some_none") for _ in range(n)]
            if stop and n:
                args[rng.randint(1, n)] = fn("nothing", "boom", "some_f")
        elif op == "traverse":
            zeros = rng.random() < 0.5
            args = [fn("ok_or_err_pos", "ok_f", "ok_id", "err_g"), ["block", [["int", rng.randint(0 if zeros and rng.random() < 0.1 else 1, 9)] for _ in range(n)]]]
        else:
            p = rng.choice([0, 0.02, 0.2])
            args = [["block", [["error" if rng.random() < p else "ok", ["int", rng.randint(0, 999)]] for _ in range(n)]]]
        fname, f = rng.choice(FORMS[op])
        objs = [dec(a) for a in args]
        with watchdog(60, f"{op} {args}"):
            ret, calls = run_op(f, objs)
        ev.append({"ev": "reset"})
        ev.append({"ev": "call", "op": op, "form": fname, "args": args, "ret": ret, "calls": [] if op in FREE_CALLS else calls})
        if [terms.enc(o) for o in objs] != args:
            ctx.violation("an operand was changed", {"op": op, "args": args, "after": [terms.enc(o) for o in objs]})
    for n in (700, 2000):
        args = [["block", [["ok", ["int", i]] for i in range(n)] + ([["error", ["int", 5]]] if n == 700 else [])]]
        with watchdog(120, f"sequence of {n} items"):
            ret, _ = run_op(FORMS["sequence"][0][1], [dec(a) for a in args])
        ev.append({"ev": "reset"})
        ev.append({"ev": "call", "op": "sequence", "form": "call", "args": args, "ret": ret, "calls": []})
    validate_store(ctx, "ComposeTrace", ev, "recorded composition")
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("which items' functions traverse calls, and in which order, is not prescribed; pipelines of up to 60 functions")
