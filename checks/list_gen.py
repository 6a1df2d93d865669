"""Random list operations for histories (kinds mirror the domains of Lists.tla)."""

UN = {
    "map": ["inc", "neg", "mod2", "id"], "map!": ["f", "none", "boom_at2", "boom"],
    "mapi": ["add", "snd"], "choose": ["choose_pos", "choose_even", "nothing", "boom"], "filter": ["pos", "even", "pT", "pF", "isnt1", "boom_key2"],
    "partition": ["pos", "even", "isnt1"], "forall": ["pos", "even", "isnt1"], "sum_by": ["inc", "neg", "mod2"], "reduce": ["add", "sub"],
    "sort_with": ["id", "neg", "mod2", "zero"],
}
VAL = [["int", k] for k in range(-3, 10)]


def ints(rng, n=12):
    return [rng.choice(VAL) for _ in range(rng.randint(0, n))]


def block_case(rng, tags, cont="block", maxlen=40):
    regs = [i for i, t in enumerate(tags) if t[0] == cont and len(t[1]) <= maxlen and all(x[0] == "int" for x in t[1])]

    def src():
        if regs and rng.random() < 0.85:
            i = rng.choice(regs[-8:]) if rng.random() < 0.6 else rng.choice(regs)
            return ("reg", i)
        return [cont, ints(rng)]

    op = rng.choice(["map", "mapi", "choose", "collect", "filter", "partition", "forall", "fold", "reduce", "append", "add", "concat", "cons",
                     "head", "tail", "try_head", "indexed", "item", "getitem", "skip", "take", "skip_last", "take_last", "sort", "sort_with", "sum",
                     "sum_by", "contains", "slice", "eq", "len", "iterate", "zip", "map!", "unfold", "of_seq"])
    n = ["int", rng.choice([0, 1, 1, 2, 3, 5, 8, 50])]
    b = ["bool", rng.random() < 0.5]
    if op in UN:
        f = ["fn", rng.choice(UN[op])]
        if op == "sort_with":
            return op, [src(), f, b]
        return op.rstrip("!"), [src(), f]
    if op == "collect":
        return op, [src(), ["fn", rng.choice({"block": ["dupB", "emptyB", "posB"], "arr": ["dupA", "emptyA", "posA"]}[cont])]]
    if op == "fold":
        return op, [src(), ["fn", rng.choice(["sub", "snd", "add"])], rng.choice(VAL)]
    if op in ("append", "add", "eq"):
        return op, [src(), src()]
    if op == "concat":
        return op, [["list", [[cont, ints(rng, 3)] for _ in range(rng.randint(0, 4))]]]
    if op == "cons":
        return op, [src(), rng.choice(VAL)]
    if op in ("head", "tail", "try_head", "sum", "len", "iterate"):
        return op, [src()]
    if op in ("indexed", "item", "getitem", "skip", "take", "skip_last", "take_last"):
        return op, [src(), n]
    if op == "sort":
        return op, [src(), b]
    if op == "contains":
        return op, [src(), rng.choice(VAL)]
    if op == "slice":
        ix = lambda: rng.choice([["none"], ["int", rng.randint(-6, 8)]])
        return op, [src(), ix(), ix()]
    if op == "zip":
        s = src()
        ln = len(tags[s[1]][1]) if s[0] == "reg" else len(s[1])
        return op, [s, [cont, [rng.choice(VAL) for _ in range(ln)]]]
    if op == "unfold":
        return op, [["int", rng.randint(-2, 4)], ["fn", "unf"]]
    if op == "of_seq":
        return op, [["list", ints(rng)]]
    raise AssertionError(op)


def block_lit(rng):
    return ["block", ints(rng)]


# ---- arbitrary elements and long sequences ----
ANY = [["none"], ["int", 0], ["int", 1], ["nothing"], ["weird", 1], ["weird", 2], ["weird", 1], ["some", ["none"]], ["tup", []], ["str", ""], ["bool", False],
       ["list", []], ["tup", [["int", 1], ["none"]]], ["some", ["nothing"]], ["list", [["int", 1], ["int", 2]]]]
AUN = {"map": ["id", "f", "none", "nothing", "estr", "boom"], "mapi": ["pair", "snd", "f", "none", "boom"], "choose": ["some_id", "some_none", "nothing", "some_f", "boom"],
       "filter": ["pT", "pF", "p1", "pS", "two", "pL", "zero", "isnt1", "none", "boom_key2"], "partition": ["pT", "pF", "p1", "isnt1", "estr"], "forall": ["pT", "p1", "pS", "two", "pL", "isnt1", "none", "boom_key2"],
       "reduce": ["snd", "id", "f", "none", "boom"], "sort_with": ["zero"]}
SMALL = [0, 1, 1, 2, 3, 5]


def anys(rng, n=8):
    return [rng.choice(ANY) for _ in range(rng.randint(0, n))]


def any_case(rng, tags, cont="block", maxlen=60):
    """An operation that works on elements of any kind."""
    regs = [i for i, t in enumerate(tags) if t[0] == cont and len(t[1]) <= maxlen]

    def src():
        if regs and rng.random() < 0.85:
            return ("reg", rng.choice(regs[-8:]) if rng.random() < 0.6 else rng.choice(regs))
        return [cont, anys(rng)]

    def length(s):
        return len(tags[s[1]][1]) if s[0] == "reg" else len(s[1])

    op = rng.choice(["map", "mapi", "choose", "collect", "filter", "partition", "forall", "fold", "reduce", "append", "add", "concat", "cons", "head", "tail",
                     "try_head", "indexed", "item", "getitem", "skip", "take", "skip_last", "take_last", "sort_with", "slice", "slice3", "len", "is_empty",
                     "iterate", "zip", "of_seq", "of", "of_option", "singleton", "match"])
    s = src()
    ln = length(s)
    n = ["int", rng.choice([*SMALL, max(ln - 1, 0), ln, ln + 1, ln // 2, 255, 256, 257])]
    if op in AUN:
        f = ["fn", rng.choice(AUN[op])]
        return op, [s, f, ["bool", rng.random() < 0.5]] if op == "sort_with" else [s, f]
    if op == "collect":
        return op, [s, ["fn", rng.choice(["dupB", "emptyB"] if cont == "block" else ["dupA", "emptyA"])]]
    if op == "fold":
        return op, [s, ["fn", rng.choice(["snd", "id", "none", "boom"])], rng.choice(ANY)]
    if op in ("append", "add"):
        return op, [s, src()]
    if op == "concat":
        return op, [["list", [[cont, anys(rng, 3)] for _ in range(rng.randint(0, 5))]]]
    if op == "cons":
        return op, [s, rng.choice(ANY)]
    if op in ("indexed", "item", "skip", "take", "skip_last", "take_last"):
        return op, [s, n]
    if op == "getitem":
        return op, [s, rng.choice([n, ["int", -n[1]]])]
    if op in ("slice", "slice3"):
        ix = lambda: rng.choice([["none"], ["int", rng.choice([-1, 1]) * rng.choice([*SMALL, ln, ln // 2, ln // 3])]])
        return op, [s, ix(), ix()] + ([["int", rng.choice([1, 2, 3, -1, -2, -3])]] if op == "slice3" else [])
    if op == "zip":
        return op, [s, [cont, [rng.choice(ANY) for _ in range(ln)]]]
    if op == "of_seq":
        return op, [["list", anys(rng)]]
    if op == "of":
        return op, anys(rng, 5)
    if op in ("of_option", "singleton"):
        x = rng.choice(ANY)
        return op, [rng.choice([["some", x], ["nothing"]]) if op == "of_option" else x]
    return op, [s]


def any_lit(rng, cont="block", big=0):
    """big: a length around a power of two or ten, where chunked implementations change course."""
    if big:
        n = rng.choice([31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300])
        return [cont, [rng.choice(ANY) if rng.random() < 0.3 else ["int", rng.randint(-3, 9)] for _ in range(n)]]
    return [cont, anys(rng)]


def big_ints(rng, cont="block"):
    n = rng.choice([31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300])
    return [cont, [["int", rng.randint(-3, 9)] for _ in range(n)]]


SEQ_ANY = {"map": AUN["map"], "mapi": AUN["mapi"], "choose": AUN["choose"], "filter": AUN["filter"], "collect": ["dupL", "emptyL", "boom"], "iter": ["f", "none", "pF", "boom_at2"],
           "try_find_index": ["pT", "pF", "pS", "two", "pL", "zero", "is2", "isnt1", "none", "boom_key2"], "try_pick": ["some_id", "some_none", "nothing", "pick2", "boom"],
           "fold": ["snd", "id", "none", "boom"], "fold_back": ["snd", "id", "none", "boom"], "scan": ["snd", "id", "none", "boom"]}
SEQ_INT = {"map": ["inc", "neg", "f", "boom_at2"], "mapi": ["add", "sub", "f"], "choose": ["choose_pos", "choose_even"], "filter": ["pos", "even", "isnt1", "boom_key2"],
           "collect": ["dupL", "posL"], "fold": ["add", "sub"], "fold_back": ["add", "sub"], "scan": ["add", "sub", "snd"], "sum_by": ["inc", "neg", "mod2"],
           "max_by": ["neg", "mod2", "id"], "min_by": ["neg", "mod2", "id"], "try_find_index": ["is2", "pos", "even"], "try_pick": ["choose_pos", "choose_even", "pick2"]}


def seq_case(rng, ops):
    """One list operation on a literal source; mostly short, sometimes long, of ints or of anything."""
    big = rng.random() < 0.25
    isint = rng.random() < 0.4
    xs = (big_ints(rng, "list") if isint else any_lit(rng, "list", 1)) if big else ["list", ints(rng) if isint else anys(rng)]
    ln = len(xs[1])
    table = SEQ_INT if isint else SEQ_ANY
    op = rng.choice([o for o in ops if o in table or o in ("head", "seq.tail", "length", "to_list", "identity", "pairwise", "skip", "take", "zip", "append", "concat",
                                                            "of", "singleton", "infinite", "starmap", "repeat") or (isint and o in ("sum", "max", "min"))])
    if op in table:
        f = ["fn", rng.choice(table[op])]
        if op in ("fold", "fold_back", "scan"):
            return op, [xs, f, ["int", rng.randint(-2, 5)] if isint else rng.choice(ANY)]
        return op, [xs, f]
    n = ["int", rng.choice([*SMALL, max(ln - 1, 0), ln, ln + 1, ln // 2, 256])]
    if op in ("skip", "take"):
        return op, [xs, n]
    if op == "zip":
        return op, [xs, ["list", [rng.choice(ANY) for _ in range(max(0, ln + rng.choice([-1, 0, 1, 3])))]]]
    if op == "append":
        return op, [xs] + [["list", anys(rng, 4)] for _ in range(1 if "repeat" in ops else rng.randint(1, 3))]
    if op == "concat":
        return op, [["list", [["list", anys(rng, 3)] for _ in range(rng.randint(0, 12))]]]
    if op == "of":
        return op, xs[1][:20]
    if op == "singleton":
        return op, [rng.choice(ANY)]
    if op == "infinite":
        return op, [n, ["fn", rng.choice(["f", "id", "none"])]]
    if op == "repeat":
        return op, [rng.choice(ANY), n]
    if op == "starmap":
        return op, [["list", [["tup", anys(rng, 8)] for _ in range(rng.randint(0, 4))]], ["fn", rng.choice(["f", "pair", "none"])]]
    return op, [xs]
