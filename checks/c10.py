"""Key comparisons of Map operations are within the bound of the balanced tree (MapTree.tla, MapCost.tla)."""
import itertools
import sys

from expression import Nothing, Some
from expression.collections import Map
from harness.core import watchdog

COUNT = [0]


class K:
    """A key that counts comparisons."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        COUNT[0] += 1
        return self.v < o.v

    def __gt__(self, o):
        COUNT[0] += 1
        return self.v > o.v

    def __le__(self, o):
        COUNT[0] += 1
        return self.v <= o.v

    def __ge__(self, o):
        COUNT[0] += 1
        return self.v >= o.v

    def __eq__(self, o):
        COUNT[0] += 1
        return self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return f"K({self.v})"


MODEL = """CONSTANTS KeyN = %d
MaxLen = %d
Mixed = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Emit Refines Sorted_ Heights HeightBound BalancedWhileAdding
CHECK_DEADLOCK FALSE
"""
COST = "CONSTANT Events <- TraceData\nSPECIFICATION Spec\nINVARIANT Done\nCHECK_DEADLOCK FALSE\n"


class Costs:
    def __init__(self, ctx):
        self.ctx, self.events = ctx, []

    def cost(self, op, peak, f, info):
        COUNT[0] = 0
        with watchdog(60, f"{op} {info}"):
            r = f()
        self.events.append({"op": op, "peak": peak, "compares": COUNT[0], "info": info})
        return r

    def all(self, m, peak, ks, info):
        for k in ks:
            self.cost("find", peak, lambda: m.try_find(K(k)), info)
            self.cost("contains", peak, lambda: m.contains_key(K(k)), info)
            self.cost("get", peak, lambda: m.get(K(k)), info)
            self.cost("add", peak + 1, lambda: m.add(K(k), 0), info)
            self.cost("remove", peak, lambda: m.remove(K(k)), info)
            self.cost("change", peak + 1, lambda: m.change(K(k), lambda o: Some(1)), info)
            self.cost("change-remove", peak, lambda: m.change(K(k), lambda o: Nothing), info)


def orders(rng, n):
    up = list(range(n))
    yield "ascending", up
    yield "descending", up[::-1]
    r = up[:]
    rng.shuffle(r)
    yield "random", r
    yield "zigzag", [x for p in zip(up[: n // 2], up[::-1]) for x in p]
    yield "evens-odds", up[::2] + up[1::2]
    yield "inside-out", sorted(up, key=lambda x: abs(x - n // 2))
    yield "outside-in", sorted(up, key=lambda x: -abs(x - n // 2))
    yield "blocks", [x for b in range(0, n, 8) for x in reversed(up[b:b + 8])]


def sparse(h, d, lean):
    """Insertion order (breadth first) of a tree of height h in which every node's subtrees differ by d levels.

    A tree that tolerates exactly two levels keeps it for d <= 2 and must rotate for d > 2.
    lean: 'l', 'r' or 'a' (alternating) - where the taller subtree is.
    """
    size = {}

    def n(h):
        if h <= 0:
            return 0
        if h not in size:
            size[h] = 1 + n(h - 1) + n(h - 1 - d)
        return size[h]

    out = []
    todo = [(h, 0, lean)]
    while todo:
        nxt = []
        for hh, lo, ln in todo:
            if hh <= 0:
                continue
            left, right = (hh - 1, hh - 1 - d) if ln in "la" else (hh - 1 - d, hh - 1)
            root = lo + n(left)
            out.append(root)
            sub = {"a": "b", "b": "a"}.get(ln, ln)
            nxt += [(left, lo, sub), (right, root + 1, sub)]
        todo = nxt
    return out


def sparse_orders(limit):
    for d in (1, 2, 3, 4, 6):
        for lean in "lrab":
            h = 4
            best = None
            while True:
                ks = sparse(h, d, lean)
                if len(ks) > limit:
                    break
                best = ks
                if h in (6, 8, 11, 15, 20):
                    yield f"sparse {d}{lean} height {h}", ks
                h += 1
                if h > 60:
                    break
            if best:
                yield f"sparse {d}{lean} height {h - 1}", best


def adversary(costs, rng, n, info):
    """Insert next to the key that is most expensive to find; then remove the cheapest ones."""
    m, ks = Map.empty(), []
    for i in range(n):
        if not ks:
            k = 0.5
        else:
            cand = [rng.random() for _ in range(6)] + [c for x in rng.sample(ks, min(6, len(ks))) for c in (x - 1e-9 * (i + 1), x + 1e-9 * (i + 1))]
            best = -1
            for c in cand:
                COUNT[0] = 0
                m.contains_key(K(c))
                if COUNT[0] > best:
                    best, k = COUNT[0], c
        m = costs.cost("add", i + 1, lambda: m.add(K(k), i), info)
        ks.append(k)
        costs.cost("find", i + 1, lambda: m.try_find(K(k)), info)
    for _ in range(n * 2 // 3):
        cand = rng.sample(ks, min(8, len(ks)))
        best, k = 10**9, None
        for c in cand:
            COUNT[0] = 0
            m.contains_key(K(c))
            if COUNT[0] < best:
                best, k = COUNT[0], c
        m = costs.cost("remove", n, lambda: m.remove(K(k)), info)
        ks.remove(k)
        c = rng.choice(ks)
        costs.cost("find", n, lambda: m.try_find(K(c)), info)


def mixed(costs, rng, n, oname, ks, way):
    """Insertions and removals by every operation that inserts or removes, with rebuilding operations in between."""
    m, info, peak = Map.empty(), f"{way} {oname} {n}", 0
    put = {"change": lambda m, k: m.change(K(k), lambda o: Some(k)), "add": lambda m, k: m.add(K(k), k)}
    for i, k in enumerate(ks):
        f = put["change" if way in ("change", "change+map") or (way == "any" and rng.random() < 0.5) else "add"]
        peak = i + 1
        if i % 31 == 0 or i > n - 20:
            m = costs.cost("insert", peak, lambda: f(m, k), info)
        else:
            m = f(m, k)
        if "map" in way and i % 5 == 4 or way == "any" and rng.random() < 0.05:
            m = m.map(lambda k, v: v)
        if way in ("filter", "any") and i % 97 == 96:
            m = rng.choice([lambda: m.filter(lambda k, v: True), lambda: m.partition(lambda k, v: True)[0], lambda: Map.of_seq(m.to_seq()), lambda: Map.of_list(list(m.items()))])()
    costs.all(m, peak, rng.sample(range(-1, n + 1), 12) + [-1, 0, n - 1, n], info)
    left = sorted(ks)
    while len(left) > n // 3:
        j = rng.choice([0, len(left) - 1, len(left) // 2, rng.randrange(len(left))])
        k = left.pop(j)
        f = (lambda: m.change(K(k), lambda o: Nothing)) if way in ("change", "any") and rng.random() < 0.8 else (lambda: m.remove(K(k)))
        m = costs.cost("take out", peak, f, info) if len(left) % 23 == 0 else f()
        if "map" in way and len(left) % 7 == 0:
            m = m.map(lambda k, v: v)
    costs.all(m, peak, rng.sample(range(-1, n + 1), 12), info + " after removals")


def removals(rng, ks):
    yield "none", []
    yield "low half", ks[: len(ks) // 2]
    yield "high half", ks[len(ks) // 2:]
    yield "alternate", ks[::2]
    r = ks[:]
    rng.shuffle(r)
    yield "random", r[: len(r) * 3 // 4]
    yield "roots", None


def check(ctx):
    q = ctx.quick
    rng = ctx.rng
    # the model: heights of all histories of insertions followed by removals
    r = ctx.tlc("MapTree", MODEL % ((6, 12) if q else (8, 16)), workers=8)
    costs = Costs(ctx)
    ctx.phase("code:costs on every small history")
    keyn = 6 if q else 8
    for it in r.items:
        m = Map.empty()
        peak, n = 0, 0
        for h in it["hist"]:
            m = m.add(K(h * 2), h) if h > 0 else m.remove(K(-h * 2))
            n = len(m) if h > 0 else n
            peak = max(peak, n)
        costs.all(m, peak, range(1, 2 * keyn + 2, 2 if q else 1), it["hist"])
    ctx.add(traces_validated_against_impl=len(r.items))
    ctx.phase("code:costs on large maps")
    sizes = (50, 400, 2000) if q else (50, 400, 2000, 6000)
    for n in sizes:
        for oname, ks in orders(rng, n):
            base = Map.empty()
            for i, k in enumerate(ks):
                sample = i % 37 == 0 or i < 40 or i > n - 20
                if sample:
                    base = costs.cost("add", i + 1, lambda: base.add(K(k), k), f"insert {oname} {n}")
                else:
                    base = base.add(K(k), k)
            for rname, rem in removals(rng, sorted(ks)):
                if rem is None:
                    # always remove some key near the middle of what is left
                    left = sorted(ks)
                    rem = []
                    while len(left) > n // 2:
                        rem.append(left.pop(len(left) // 2))
                m = base
                for i, k in enumerate(rem):
                    if i % 29 == 0 or i < 20:
                        m = costs.cost("remove", n, lambda: m.remove(K(k)), f"remove {oname} {rname} {n}")
                    else:
                        m = m.remove(K(k))
                probe = rng.sample(range(-1, n + 1), 25) + [-1, 0, n - 1, n]
                costs.all(m, n, probe, f"{oname} {rname} {n}")
            for ctor in (Map.of_seq, Map.of_list, Map.create):
                m = ctor([(K(k), k) for k in ks])
                costs.all(m, n, rng.sample(range(n), 10), f"{ctor.__name__} {oname} {n}")
            m = Map.of_seq([(K(k), k) for k in ks])
            f = m.filter(lambda k, v: v % 3 != 0)
            costs.all(f, n, rng.sample(range(n), 10), f"filter {oname} {n}")
            for p in m.partition(lambda k, v: v % 2 == 0):
                costs.all(p, n, rng.sample(range(n), 10), f"partition {oname} {n}")
            costs.all(m.map(lambda k, v: v), n, rng.sample(range(n), 10), f"map {oname} {n}")
    ctx.phase("code:costs of other ways to insert and remove")
    for n in (60, 500) if q else (60, 500, 3000):
        for oname, ks in orders(rng, n):
            for way in ("change", "map", "change+map", "filter", "any"):
                mixed(costs, rng, n, oname, ks, way)
    ctx.phase("code:costs on adversarial histories")
    for oname, ks in sparse_orders(600 if q else 3000):
        m = Map.empty()
        for i, k in enumerate(ks):
            m = m.add(K(k), k)
            if i > len(ks) - 30:
                costs.cost("find", i + 1, lambda: m.try_find(K(k)), oname)
        costs.all(m, len(ks), rng.sample(range(-1, len(ks) + 1), min(20, len(ks))) + ks[-6:], oname)
        for rname, rem in removals(rng, sorted(ks)):
            m2 = m
            for k in rem or ks[: len(ks) // 2]:
                m2 = m2.remove(K(k))
            costs.all(m2, len(ks), rng.sample(range(len(ks)), min(6, len(ks))) + ks[-3:], f"{oname} {rname}")
    for i in range(6 if q else 40):
        adversary(costs, rng, 150 if q else 400, f"adversary {i}")
    ctx.phase("code:costs after very long runs of insertions")
    for oname, ks in (("ascending", range(60000)), ("descending", range(60000, 0, -1)), ("both ends", [x for i in range(25000) for x in (i, -i)])):
        if ctx.late():
            break
        with watchdog(120, f"{oname} insertion"):
            m = Map.empty()
            for k in ks:
                m = m.add(K(k), k)
        n = len(ks)
        costs.all(m, n, [ks[0], ks[1], ks[-1], ks[-2], ks[n // 2], *rng.sample(list(ks), 15)], f"{oname} {n}")
    # long inputs do not exhaust the stack
    ctx.phase("code:long inputs")
    big = 12000 if q else 40000
    limit = sys.getrecursionlimit()
    try:
        sys.setrecursionlimit(1000)
        for ctor in (Map.of_seq, Map.of_list, Map.create, Map.of_block):
            from expression.collections import Block
            src = [(K(i), i) for i in range(big)]
            with watchdog(120, ctor.__name__):
                m = ctor(Block(src) if ctor is Map.of_block else iter(src) if ctor is not Map.of_list else src)
            if len(m) != big or m[K(big - 1)] != big - 1:
                ctx.violation("a map built from a long iterable is wrong", {"ctor": ctor.__name__})
        with watchdog(120, "traversals of a large map"):
            n1 = sum(1 for _ in m)
            n2 = len(m.filter(lambda k, v: v % 2 == 0))
            n3 = m.fold(lambda a, kv: a + 1, 0)
            n4 = m.fold_back(lambda kv, a: a + 1, 0)
            n5 = len(m.map(lambda k, v: v))
            n6 = [len(x) for x in m.partition(lambda k, v: v < 10)]
            n7 = sum(1 for _ in m.to_seq())
        if (n1, n2, n3, n4, n5, n6, n7) != (big, big // 2, big, big, big, [10, big - 10], big):
            ctx.violation("traversals of a large map disagree", {"counts": [n1, n2, n3, n4, n5, n6, n7]})
        m2 = m
        for i in range(0, big, 3):
            m2 = m2.remove(K(i))
        costs.all(m2, big, rng.sample(range(big), 20), "large after removals")
    except RecursionError as e:
        ctx.violation("the recursion limit was exhausted", {"size": big, "error": str(e)})
    finally:
        sys.setrecursionlimit(limit)
    ev = costs.events
    r = ctx.tlc("MapCost", COST, files={"traces.ndjson": [{k: e[k] for k in ("op", "peak", "compares")} for e in ev]}, workers=1)
    if not any("validated" in i and i["validated"] == len(ev) for i in r.items):
        raise RuntimeError("cost validation incomplete")
    for it in r.items:
        if "mismatch" in it:
            ctx.violation("too many key comparisons", {**ev[it["line"] - 1], "bound": it["bound"]})
    ctx.add(cost_events=len(ev))
    worst = max(itertools.islice(ev, len(ev)), key=lambda e: e["compares"])
    ctx.sample({"worst": worst})
    ctx.assumptions.append("the bound is two comparisons per level (plus two) of the tallest tree allowed by the tolerance at the peak size; histories are insertions (add, change, of_*; with map, filter and partition in between) followed by removals (remove, change)")
