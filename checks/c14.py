from expression.collections import TypedArray
from expression.collections.array import TypeCode, int32, uint8
from harness import terms
from harness.replay import StoreDriver, pairs, replay_cases, sweep

from .array_forms import FORMS
from .c07 import finding, key_case
from .large import large
from .list_gen import ANY, VAL, any_case, any_lit, anys, big_ints, block_case, ints

GEN = "CONSTANT Size = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
NONFREE = {"append", "add", "concat", "cons", "partition", "reduce", "mapi", "zip"}


def numeric(t):
    """Only small ints inside, so that every storage can hold it."""
    if t[0] in ("arr", "list"):
        return all(x[0] == "int" and 0 <= x[1] < 100 for x in t[1])
    return True


MAKERS = {
    "byte": lambda xs: TypedArray(xs, typecode=TypeCode.Byte),
    "bytes": lambda xs: TypedArray(bytes(xs)),
    "uint8": lambda xs: TypedArray([uint8(x) for x in xs]),
    "int32": lambda xs: TypedArray([int32(x) for x in xs]),
    "int64": lambda xs: TypedArray(xs, typecode=TypeCode.Int64),
    "uint16": lambda xs: TypedArray(xs, typecode=TypeCode.Uint16),
}


def using(make):
    def on():
        terms.ARR_MAKE = make

    def off():
        terms.ARR_MAKE = TypedArray.of_seq

    return (on, off)


def mutation(rng, tags, maxlen=40):
    regs = [i for i, t in enumerate(tags) if t[0] == "arr" and len(t[1]) <= maxlen and all(x[0] == "int" for x in t[1])]
    if not regs:
        return "of_seq", [["list", ints(rng)]]
    lists = [i for i, t in enumerate(tags) if t[0] == "list"]
    r = ("reg", rng.choice(regs))
    ix = ["int", rng.randint(-5, 8)]
    v = rng.choice(VAL)
    sl = lambda: rng.choice([["none"], ["int", rng.randint(-5, 6)]])
    op = rng.choice(["setitem", "setitem", "delitem", "insert", "push", "extend", "iadd", "pop", "pop_at", "remove", "reverse", "clear", "setslice",
                     "delslice", "setslice3", "delslice3", "extend_self", "of_seq", "getitem", "index", "count", "reversed", "collect_reg"])
    if op == "clear" and rng.random() < 0.7:
        op = "push"
    if op in ("setitem", "insert"):
        return op, [r, ix, v]
    if op in ("delitem", "pop_at", "getitem"):
        return op, [r, ix]
    if op in ("push", "remove", "index", "count"):
        return op, [r, v]
    if op in ("extend", "iadd"):
        # other arrays and plain lists of the history as arguments, too
        small = [i for i in regs + lists if len(tags[i][1]) <= 12]
        return op, [r, ("reg", rng.choice(small)) if small and rng.random() < 0.6 else ["list", ints(rng, 4)]]
    if op == "of_seq":
        return op, [("reg", rng.choice(lists + regs))]
    if op == "collect_reg":
        small = [i for i in regs if len(tags[i][1]) <= 3]
        return (op, [("reg", rng.choice(small)), ("reg", rng.choice(small))]) if small else ("pop", [r])
    if op == "setslice":
        return op, [r, sl(), sl(), ["list", ints(rng, 3)]]
    if op in ("setslice3", "delslice3"):
        step = ["int", rng.choice([-3, -2, -1, -1, 2, 2, 3, 5])]
        x, y = sl(), sl()
        if op == "delslice3":
            return op, [r, x, y, step]
        n = len(range(*slice(*(None if t == ["none"] else t[1] for t in (x, y, step))).indices(len(tags[r[1]][1]))))
        vs = ints(rng, 6) * 60
        return op, [r, x, y, step, ["list", vs[: n if rng.random() < 0.8 else rng.randint(0, 3)]]]
    if op == "delslice":
        return op, [r, sl(), sl()]
    return op, [r]


def gen(rng, tags):
    while True:
        if rng.random() < 0.5:
            op, args = mutation(rng, tags)
        else:
            op, args = block_case(rng, tags, cont="arr")
            if op in NONFREE:
                continue
        if op not in FORMS or finding(op, args) or (op in ("extend", "iadd") and args[0] == args[1]):
            continue
        return op, args


def any_mutation(rng, tags, maxlen):
    """In-place changes with elements of any kind (none that compares elements)."""
    regs = [i for i, t in enumerate(tags) if t[0] == "arr" and len(t[1]) <= maxlen]
    if not regs:
        return "of_seq", [["list", anys(rng)]]
    r = ("reg", rng.choice(regs))
    ln = len(tags[r[1]][1])
    ix = ["int", rng.choice([0, 1, -1, 2, -2, ln - 1, -ln, ln, ln // 2, 256])]
    v = rng.choice(ANY)
    op = rng.choice(["setitem", "delitem", "insert", "push", "extend", "iadd", "pop", "pop_at", "reverse", "setslice", "delslice", "setslice3", "delslice3", "extend_self", "reversed"])
    sl = lambda: rng.choice([["none"], ["int", rng.choice([0, 1, -1, ln // 2, ln, 3])]])
    if op in ("setitem", "insert"):
        return op, [r, ix, v]
    if op in ("delitem", "pop_at"):
        return op, [r, ix]
    if op == "push":
        return op, [r, v]
    if op in ("extend", "iadd"):
        return op, [r, ["list", anys(rng, 4)]]
    if op == "setslice":
        return op, [r, sl(), sl(), ["list", anys(rng, 3)]]
    if op in ("setslice3", "delslice3"):
        step = ["int", rng.choice([-3, -2, -1, -1, 2, 2, 3, 5])]
        x, y = sl(), sl()
        if op == "delslice3":
            return op, [r, x, y, step]
        n = len(range(*slice(*(None if t == ["none"] else t[1] for t in (x, y, step))).indices(len(tags[r[1]][1]))))
        vs = anys(rng, 6) * 60
        return op, [r, x, y, step, ["list", vs[: n if rng.random() < 0.8 else rng.randint(0, 3)]]]
    if op == "delslice":
        return op, [r, sl(), sl()]
    return op, [r]


def any_gen(maxlen, case=any_case, mut=any_mutation):
    def g(rng, tags):
        while True:
            op, args = mut(rng, tags, maxlen) if rng.random() < 0.5 else case(rng, tags, cont="arr", maxlen=maxlen)
            if op in FORMS and op not in NONFREE and not finding(op, args) and not (op in ("extend", "iadd") and args[0] == args[1]) \
                    and not (op == "extend_self" and len(tags[args[0][1]][1]) > 150):
                return op, args
    return g


def check(ctx):
    r = ctx.tlc("ArrayGen", GEN % (3 if ctx.quick else 4), workers=8)
    replay_cases(ctx, r.items, FORMS, label="array transitions", keyfn=key_case)
    pairs(ctx, r.items, FORMS, label="array operations", share=False, skip=lambda it: it["op"] in ("skip_last", "take_last") and it["args"][1] == ["int", 0])
    sweep(ctx, r.items, FORMS, label="array transitions, every opaque value", keyfn=key_case, per_op=12 if ctx.quick else 10**6)
    num = [i for i in r.items if not i["op"].startswith("tc.") and i["op"] not in ("setslice", "setslice3", "of", "of_seq", "of_option", "singleton", "empty", "unfold")
           and i["args"] and i["args"][0][0] == "arr" and all(numeric(t) for t in i["args"])]
    for name, make in MAKERS.items():
        replay_cases(ctx, num, FORMS, variants=(using(make),), label=f"array transitions on {name} storage", keyfn=key_case)
    n = 0
    drv = StoreDriver(ctx, FORMS, gen, lambda rng: [rng.choice(["arr", "arr", "list"]), ints(rng)], heap=lambda t: t[0] in ("arr", "list"))
    ctx.phase("code:array histories")
    while n < (80 if ctx.quick else 1500):
        n += 1
        drv.history(4, 30, proj_every=1, first=[["arr", ints(ctx.rng)], ["list", ints(ctx.rng)]])
    rng = ctx.rng
    for k in range(40 if ctx.quick else 1000):
        drv.history(2, 30, 5, [any_lit(rng, "arr") for _ in range(2)], any_gen(60))
        if k % 8 == 0:
            drv.history(2, 12, 4, [any_lit(rng, "arr", 1) for _ in range(2)], any_gen(320))
            drv.history(2, 12, 4, [big_ints(rng, "arr") for _ in range(2)], any_gen(320, block_case, mutation))
    # aliasing: apply a functional operation, then change the result and the operand in place, for every storage
    mk = [i for i in num if i["ret"][0] == "arr" and not finding(i["op"], i["args"]) and len(i["args"][0][1]) > 0]
    byop = {}
    for i in mk:
        byop.setdefault((i["op"], len(i["args"][0][1]), len(i["ret"][1])), []).append(i)
    r0, r1 = ("reg", 0), ("reg", 1)
    for make in (terms.ARR_MAKE, *MAKERS.values()):
        for group in byop.values():
            for i in ctx.rng.sample(group, min(len(group), 3 if ctx.quick else 20)):
                terms.ARR_MAKE = make
                for muts in ([("push", [r1, ["int", 7]]), ("setitem", [r1, ["int", 0], ["int", 9]]), ("setitem", [r0, ["int", 0], ["int", 8]])],
                             [("insert", [r0, ["int", 0], ["int", 7]]), ("setitem", [r0, ["int", -1], ["int", 9]]), ("delitem", [r1, ["int", 0]])]):
                    drv.script([i["args"][0]], [(i["op"], [r0, *i["args"][1:]]), *muts])
        # collect whose callback returns arrays that exist already (also the operand itself)
        terms.ARR_MAKE = make
        r2, seven = ("reg", 2), ["int", 7]
        for src in ([], [1], [1, 2]):
            for other in ([], [5], [5, 6]):
                lits = [["arr", [["int", x] for x in xs]] for xs in (src, other)]
                for o in (r1, r0):
                    for target in (r0, r1, r2):
                        drv.script(lits, [("collect_reg", [r0, o]), ("insert", [target, ["int", 0], seven]), ("setitem", [target, ["int", -1], ["int", 9]])])
    terms.ARR_MAKE = TypedArray.of_seq
    drv.validate("ArrayTrace", "array history")
    n = 10007 if ctx.quick else 33000
    large(ctx, FORMS, "ArrayTrace", [o for o in FORMS if o not in NONFREE], "arr", (n,), "array operations")
    ctx.phase("code:long arrays changed in place")
    big = lambda: ["arr", [["int", rng.randint(0, 9)] for _ in range(n)]]
    drv = StoreDriver(ctx, FORMS, None, None, heap=lambda t: t[0] in ("arr", "list"))
    num = lambda k: ["int", k]
    for make in (TypedArray.of_seq, *MAKERS.values()):
        terms.ARR_MAKE = make
        drv.script([big()], [(op, [r0, *a]) for op, a in (
            ("setitem", [num(n - 1), num(7)]), ("setitem", [num(-n), num(8)]), ("insert", [num(n - 2), num(9)]), ("push", [num(5)]), ("delitem", [num(-2)]), ("delitem", [num(n // 2)]),
            ("pop", []), ("pop_at", [num(n - 7)]), ("extend", [["list", [num(k % 10) for k in range(3000)]]]), ("reverse", []), ("delslice", [num(5), num(-5)])) if op in FORMS], proj_every=4)
    terms.ARR_MAKE = TypedArray.of_seq
    drv.validate("ArrayTrace", "long array")
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("a bytearray handed to the TypedArray constructor is adopted, not copied (not an operation on arrays)")
