"""Map as a persistent sorted dictionary: every reachable tree shape x every operation, and long random histories."""
from harness import terms
from harness.core import watchdog
from harness.replay import validate_store
from harness.terms import dec, enc, run_op

from .map_forms import FAMILIES, FORMS, norm_calls

TREE = """CONSTANTS KeyN = %d
MaxLen = %d
Mixed = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Emit Refines Sorted_ Heights
CHECK_DEADLOCK FALSE
"""
VALS = [["none"], ["int", 0], ["nothing"], ["some", ["none"]], ["tup", []], ["weird", 1], ["str", ""]]
KEYP = ["k_lt10", "k_ge10", "k_lt50", "k_ge50", "k_mid"]
PRED = ["pT", "pF", "kv_evenv", "kv_isnone", "p1", "pS", "two", "pL", "zero", "none"]


class Recorder:
    """A store of real maps and the events for MapTrace."""

    def __init__(self, ctx, opaque=False):
        self.ctx, self.events, self.opaque, self.n = ctx, [], opaque, 0

    def reset(self):
        self.n += 1
        terms.rotate(self.n if self.opaque else None)
        self.events.append({"ev": "reset", "opaque": terms.binding()})
        self.objs, self.tags = [], []

    def call(self, op, args):
        """args: ('reg', i) or term; returns the register of the result or None."""
        real = [self.objs[a[1]] if a[0] == "reg" else dec(a) for a in args]
        fname, fn = self.ctx.rng.choice(FORMS[op])
        holder = []

        def go(*a):
            r = fn(*a)
            holder.append(r)
            return r

        with watchdog(30, f"{op} {fname} {args}"):
            ret, calls = run_op(go, real)
        self.events.append({"ev": "call", "op": op, "form": fname, "args": [["reg", a[1] + 1] if a[0] == "reg" else a for a in args],
                            "ret": ret, "calls": norm_calls(op, ret, calls)})
        if ret[0] == "raise":
            return None
        self.objs.append(holder[0])
        self.tags.append(ret)
        return ("reg", len(self.objs) - 1)

    def proj(self):
        self.events.append({"ev": "proj", "regs": [enc(o) for o in self.objs]})


def build(rec, hist, key, rng):
    """Replay a tree history (positive: add, negative: remove)."""
    r = rec.call("empty", [])
    for j, h in enumerate(hist):
        v = ["int", j] if rng.random() < 0.8 else rng.choice(VALS)
        if h > 0:
            if rng.random() < 0.8:
                r = rec.call("add", [r, key(h), v])
            else:
                r = rec.call("change", [r, key(h), ["fn", rng.choice(["some_none", "some_f", "incopt"])]])
        elif rng.random() < 0.7:
            r = rec.call("remove", [r, key(-h)])
        else:
            r = rec.call("change", [r, key(-h), ["fn", "nothing"]])
    return r


def all_ops(rec, r, key, nkeys, rng):
    for k in range(nkeys):
        kk = key(k)
        for op in ("find", "getitem", "try_find", "contains_key", "remove", "try_get_value"):
            rec.call(op, [r, kk])
        rec.call("get", [r, kk, ["str", "d"]])
        rec.call("add", [r, kk, rng.choice(VALS)])
        for f in ("nothing", "some_none", "some_f", "id", "boom", "incopt", "toggle"):
            rec.call("change", [r, kk, ["fn", f]])
    for op in ("to_list", "to_seq", "items", "keys", "values", "len", "is_empty"):
        rec.call(op, [r])
    for f in PRED + ["boom"]:
        for op in ("filter", "partition", "exists", "for_all"):
            rec.call(op, [r, ["fn", f]])
    for f in ("f", "none", "snd", "boom"):
        rec.call("map", [r, ["fn", f]])
        rec.call("iterate", [r, ["fn", f]])
    for f in ("nothing", "kv_some", "kv_pick_even", "some_none", "boom"):
        rec.call("try_pick", [r, ["fn", f]])
        rec.call("pick", [r, ["fn", f]])
    for f in ("f", "snd", "id", "pair", "boom"):
        rec.call("fold", [r, ["fn", f], ["none"]])
        rec.call("fold_back", [r, ["fn", f], ["none"]])


def trees(ctx, keyn, maxlen, families):
    r = ctx.tlc("MapTree", TREE % (keyn, maxlen), workers=8)
    items = sorted(r.items, key=lambda i: (len(i["hist"]), i["hist"]))
    ctx.phase("code:operations on every tree")
    rec = Recorder(ctx, opaque=True)
    fams = list(FAMILIES.items())
    for n, it in enumerate(items):
        for name, key in (fams if families == "all" else [fams[n % len(fams)]]):
            rec.reset()
            t = build(rec, it["hist"], key, ctx.rng)
            all_ops(rec, t, key, keyn + 2, ctx.rng)
            rec.proj()
    ctx.cov["tree_shapes"] = len(items)
    validate_store(ctx, "MapTrace", rec.events, "map history")


def random_history(rec, rng, nops, nkeys):
    rec.reset()
    key = lambda i: ["int", i]
    maps = [rec.call("empty", [])]
    anyv = rng.random() < 0.4
    value = lambda: rng.choice(VALS) if anyv and rng.random() < 0.5 else ["int", rng.randint(0, 99)]
    start = [["tup", [key(rng.randint(0, nkeys)), value()]] for _ in range(rng.randint(0, nkeys))]
    if rng.random() < 0.5:
        start.sort(key=lambda t: t[1][0][1], reverse=rng.random() < 0.5)
    maps.append(rec.call("of_seq", [["list", start]]))
    for i in range(nops):
        cur = maps[-1] if rng.random() < 0.8 else rng.choice(maps)
        k, v = key(rng.randint(-1, nkeys + 1)), value()
        x = rng.random()
        if x < 0.35:
            r = rec.call("add", [cur, k, v])
        elif x < 0.65:
            r = rec.call("remove", [cur, k])
        elif x < 0.78:
            r = rec.call("change", [cur, k, ["fn", rng.choice(["nothing", "incopt", "toggle", "id"])]])
        elif x < 0.80:
            r = rec.call("filter", [cur, ["fn", rng.choice(["kv_evenv", "pT", *KEYP])]])
        elif x < 0.81:
            r = rec.call("map", [cur, ["fn", "snd"]])
        elif x < 0.84:  # every key and value reaches the function, and every result is stored
            rec.call("map", [cur, ["fn", rng.choice(["f", "none", "pair"])]])
            continue
        else:
            op = rng.choice(["find", "try_find", "contains_key", "to_list", "keys", "len", "fold", "fold_back", "try_pick", "items", "to_seq", "partition",
                             "exists", "for_all", "pick", "iterate", "partition", "values"])
            p = ["fn", rng.choice(["kv_evenv", "kv_isnone", *KEYP])]
            c = ["fn", rng.choice(["kv_pick_even", "k_pick_ge10", "k_pick_ge50", "nothing"])]
            args = {"fold": [["fn", "snd"], ["none"]], "fold_back": [["fn", "id"], ["none"]], "try_pick": [c], "pick": [c], "partition": [p], "exists": [p], "for_all": [p],
                    "iterate": [["fn", "none"]],
                    "find": [k], "try_find": [k], "contains_key": [k]}.get(op, [])
            rec.call(op, [cur, *args])
            continue
        if r:
            maps.append(r)
    rec.proj()


LONG = [("filter", ["k_ge50", "p1", "pF"]), ("partition", ["k_lt50", "kv_evenv"]), ("map", ["f", "snd"]), ("exists", ["pF", "zero"]), ("for_all", ["pT", "p1"]), ("iterate", ["none"]),
        ("try_pick", ["nothing", "k_pick_ge50"]), ("pick", ["kv_pick_even"])]


def long_history(rec, rng, n):
    """Every operation on a map of n bindings."""
    rec.reset()
    keys = list(range(0, 2 * n, 2))
    order = rng.choice(["up", "down", "mixed"])
    keys = keys[::-1] if order == "down" else rng.sample(keys, n) if order == "mixed" else keys
    start = [["tup", [["int", k], ["int", rng.randint(0, 99)]]] for k in keys]
    if order == "mixed":
        start += [["tup", [["int", rng.choice(keys)], ["str", ""]]] for _ in range(50)]
    r = rec.call("of_seq", [["list", start]])
    for op, fs in LONG:
        for f in fs:
            if f in terms.FN:
                rec.call(op, [r, ["fn", f]])
    for f in ("snd", "pair" if n < 500 else "id"):
        rec.call("fold", [r, ["fn", f], ["none"]])
        rec.call("fold_back", [r, ["fn", f], ["none"]])
    for op in ("to_list", "to_seq", "items", "keys", "values", "len", "is_empty"):
        rec.call(op, [r])
    for k in (0, 2 * n - 2, -1, 2 * n, n // 2 * 2, n // 3 * 2, n // 3 * 2 + 1):
        for op in ("try_find", "contains_key", "find"):
            rec.call(op, [r, ["int", k]])
    for k in (2 * n - 2, n, 2 * n + 1, -5):
        rec.call("add", [r, ["int", k], ["none"]])
        rec.call("remove", [r, ["int", k]])
    rec.call("change", [r, ["int", 4], ["fn", "nothing"]])


def check(ctx):
    q = ctx.quick
    trees(ctx, 6 if q else 7, 9 if q else 11, "one" if q else "all")
    ctx.phase("code:random map histories")
    rec = Recorder(ctx, opaque=True)
    for n in range(40 if q else 400):
        random_history(rec, ctx.rng, 60, ctx.rng.choice([5, 12, 30, 60]))
    for n in range(6 if q else 60):
        random_history(rec, ctx.rng, 40, ctx.rng.choice([130, 200, 300]))
    for n in [10007, 4099, 1025] if q else [60013, 20011, 10007, 4099, 1025]:
        if not ctx.late():
            long_history(rec, ctx.rng, n)
    # keyword construction and duplicate keys
    for kv in ([], [["a", 1]], [["b", 1], ["a", 2]], [["e", 0], ["d", 1], ["c", 2], ["b", 3], ["a", 4]]):
        rec.reset()
        rec.call("of_kw", [["list", [["tup", [["str", k], ["int", v]]] for k, v in kv]]])
    for _ in range(200 if q else 3000):
        rec.reset()
        fam = FAMILIES[ctx.rng.choice(list(FAMILIES))]
        rec.call("of_seq", [["list", [["tup", [fam(ctx.rng.randint(0, 7)), ctx.rng.choice(VALS + [["int", 5]])]] for _ in range(ctx.rng.randint(0, 12))]]])
    validate_store(ctx, "MapTrace", rec.events, "map history")
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("keys are totally ordered and == agrees with <; keys of a Map are mutually comparable")
