"""Map equality, hash and printed form depend only on the bindings."""
from expression.collections import Map
from harness.replay import validate_store
from harness.terms import dec

from .c08 import TREE, Recorder
from .map_forms import FAMILIES

CFG = TREE


def make(hist, key, value):
    m = Map.empty()
    for h in hist:
        m = m.add(dec(key(h)), value(h)) if h > 0 else m.remove(dec(key(-h)))
    return m


def shapes(ctx, keyn, maxlen):
    """Every pair of reachable trees: equal iff their bindings are."""
    r = ctx.tlc("MapTree", CFG % (keyn, maxlen), workers=8)
    ctx.phase("code:equality of every pair of trees")
    rng = ctx.rng
    fam = list(FAMILIES.items())
    items = []
    for it in r.items:
        keys = tuple(p[0][1] for p in it["abs"])      # spec's bindings (keys)
        items.append((keys, it["hist"]))
    items.sort(key=lambda x: (x[0], len(x[1]), x[1]))
    groups = {}
    for keys, hist in items:
        groups.setdefault(keys, []).append(hist)
    n = 0
    for name, key in fam:
        reps = {}
        for keys, hists in groups.items():
            maps = [make(h, key, lambda i: i * 7) for h in hists]
            # the same bindings built with of_seq in several orders
            ks = list(keys)
            for _ in range(3):
                rng.shuffle(ks)
                maps.append(Map.of_seq([(dec(key(k)), k * 7) for k in ks]))
            maps.append(Map.of_list([(dec(key(k)), -1) for k in ks] + [(dec(key(k)), k * 7) for k in sorted(ks)]))
            reps[keys] = maps
            for i, a in enumerate(maps):
                js = range(len(maps)) if len(maps) <= 8 else rng.sample(range(len(maps)), 8)
                for j in js:
                    b = maps[j]
                    n += 1
                    if not (a == b) or a != b or hash(a) != hash(b) or str(a) != str(b) or repr(a) != repr(b):
                        ctx.violation("maps with the same bindings differ", {"keys": keys, "family": name, "histories": [hists[i] if i < len(hists) else "of_seq", hists[j] if j < len(hists) else "of_seq"],
                                                                            "eq": a == b, "ne": a != b, "hash": hash(a) == hash(b), "str": [str(a), str(b)]})
                if keys:
                    # one value changed
                    k = rng.choice(keys)
                    c = rng.choice(maps).add(dec(key(k)), "other")
                    n += 1
                    if a == c or c == a or not (a != c):
                        ctx.violation("maps that differ in one value are equal", {"keys": keys, "family": name, "changed": k})
        allkeys = list(reps)
        for i, ka in enumerate(allkeys):
            for kb in allkeys:
                if ka == kb:
                    continue
                a, b = rng.choice(reps[ka]), rng.choice(reps[kb])
                n += 1
                if a == b or not (a != b):
                    ctx.violation("maps with different bindings are equal", {"a": ka, "b": kb, "family": name, "eq": a == b, "ne": a != b})
    ctx.add(traces_validated_against_impl=n)
    ctx.sample({"groups": len(groups), "trees": len(items), "comparisons": n})


def tall_and_short(ctx, limit):
    """The same bindings in the tallest and flattest trees that can be built."""
    from .c10 import sparse
    ctx.phase("code:tall and flat trees")
    rng = ctx.rng
    n = 0
    for d in (0, 1, 2, 3):
        for lean in "lra":
            for h in range(3, 14):
                order = sparse(h, d, lean)
                if len(order) > limit:
                    break
                keys = sorted(order)
                flat, todo = [], [(0, len(keys))]
                while todo:
                    lo, hi = todo.pop(0)
                    if lo < hi:
                        mid = (lo + hi) // 2
                        flat.append(mid)
                        todo += [(lo, mid), (mid + 1, hi)]
                shuffled = keys[:]
                rng.shuffle(shuffled)
                # larger maps shrunk to the same bindings keep other shapes
                big = Map.of_seq([(k, k) for k in range(-len(keys), 2 * len(keys))])
                for k in [*range(-len(keys), 0), *range(len(keys), 2 * len(keys))]:
                    big = big.remove(k)
                maps = [Map.of_seq([(k, k) for k in o]) for o in (order, flat, keys, keys[::-1], shuffled)] + [big]
                for a in maps:
                    for b in maps:
                        n += 1
                        if not (a == b) or a != b or hash(a) != hash(b) or str(a) != str(b):
                            ctx.violation("maps with the same bindings differ", {"bindings": len(keys), "eq": a == b, "hash": hash(a) == hash(b), "str": str(a) == str(b)})
                    k = rng.choice(keys)
                    for c in (rng.choice(maps).add(k, -1), rng.choice(maps).remove(k), rng.choice(maps).add(len(keys) + 1, 0)):
                        n += 1
                        if a == c or c == a or not (a != c):
                            ctx.violation("maps with different bindings are equal", {"bindings": len(keys), "key": k})
    ctx.add(traces_validated_against_impl=n)


def alike(rng, v):
    """An equal value that is not the same: 1 and True, equal tokens."""
    if v[0] == "int" and v[1] in (0, 1) and rng.random() < 0.5:
        return ["bool", bool(v[1])]
    if v[0] == "bool" and rng.random() < 0.5:
        return ["int", int(v[1])]
    if v[0] == "tok":
        return ["tok", v[1], rng.randint(1, 3)]
    if v[0] in ("tup", "list"):
        return [v[0], [alike(rng, x) for x in v[1]]]
    if v[0] == "some":
        return ["some", alike(rng, v[1])]
    return v


def foreign(ctx):
    ctx.phase("code:foreign values")
    cases = [({}, []), ({1: 2}, [(1, 2)]), ({"a": None}, [("a", None)])]
    for d, ps in cases:
        m = Map.of_list(ps)
        for other in (d, ps, dict(ps), tuple(ps), m.to_list(), list(m.items()), m.items(), m.keys(), None, 0, "", str(m), object(), set(), frozenset(d), m.to_seq()):
            if m == other or not (m != other):
                ctx.violation("a Map equals a non-Map", {"map": str(m), "other": repr(other)})
            ctx.add(traces_validated_against_impl=1)


def histories(ctx, n):
    """Random histories with equality queries, judged by the specification."""
    ctx.phase("code:random histories with comparisons")
    rec = Recorder(ctx)
    rng = ctx.rng
    vals = [["int", 0], ["int", 1], ["bool", True], ["none"], ["str", "a"], ["tup", [["int", 1]]], ["some", ["int", 1]], ["nothing"], ["bool", False], ["tok", 1, 1], ["tok", 1, 2]]
    for _ in range(n):
        rec.reset()
        nk = rng.choice([2, 3, 5, 12])
        maps = [rec.call("empty", []), rec.call("of_seq", [["list", [["tup", [["int", rng.randint(0, nk)], rng.choice(vals)]] for _ in range(rng.randint(0, nk))]]])]
        for _ in range(30):
            cur = rng.choice(maps)
            k = ["int", rng.randint(0, nk)]
            x = rng.random()
            if x < 0.3:
                maps.append(rec.call("add", [cur, k, rng.choice(vals)]))
            elif x < 0.5:
                maps.append(rec.call("remove", [cur, k]))
            elif x < 0.55:
                maps.append(rec.call("filter", [cur, ["fn", "kv_isnone"]]))
            else:
                o = rng.choice(maps)
                rec.call(rng.choice(["eq", "eq", "hash_ok"]), [cur, o])
                # rebuild the same bindings in another order
                t = [["tup", p] for p in rec.tags[cur[1]][1]]
                rng.shuffle(t)
                s = rec.call("of_seq", [["list", t]])
                for op in ("eq", "hash_ok", "str_same"):
                    rec.call(op, [cur, s])
                # equal bindings made of other objects
                s = rec.call("of_seq", [["list", [["tup", [p[1][0], alike(rng, p[1][1])]] for p in t]]])
                for op in ("eq", "hash_ok"):
                    rec.call(op, [cur, s])
        rec.proj()
    validate_store(ctx, "MapTrace", rec.events, "map comparison")


def check(ctx):
    q = ctx.quick
    shapes(ctx, 5 if q else 7, 9 if q else 11)
    tall_and_short(ctx, 150 if q else 600)
    foreign(ctx)
    histories(ctx, 60 if q else 1000)
    ctx.cov["exhaustive"] = True
    ctx.assumptions.append("printed forms are compared for identical bindings; hashes for hashable values")
