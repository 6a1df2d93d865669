"""Public API forms of Seq functions; sources arrive as lists and are presented in several ways."""
import itertools

from expression import pipe
from expression.collections import Block, Seq, seq


class Chunk:
    """A minimal re-iterable (only __iter__)."""

    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)


SOURCES = {
    "list": lambda xs: xs, "tuple": tuple, "gen": lambda xs: (x for x in xs), "Seq": Seq, "Seq(gen)": lambda xs: Seq(x for x in xs),
    "iterable": Chunk, "stage": lambda xs: seq.map(lambda x: x)(xs), "Block": Block.of_seq, "take": lambda xs: seq.take(10**6)(Seq(xs)),
}


def full(xs):
    """Traverse a returned sequence."""
    return list(itertools.islice(iter(xs), 100000))


def twice(xs):
    a = full(xs)
    return a


def make(fn, result):
    """fn(source, *args) for every kind of source."""
    return [(f"{{}}:{name}", (lambda mk: lambda s, *a: result(fn(mk(s), *a)))(mk)) for name, mk in SOURCES.items()]


def forms(op, result=full, method=True, module=True):
    out = []
    if module:
        m = getattr(seq, op)
        out += [(n.format("module"), f) for n, f in make(lambda s, *a: m(*a)(s), result)]
        out += [("pipe:list", lambda s, *a: result(pipe(s, m(*a))))]
    if method:
        out += [(n.format("method"), f) for n, f in make(lambda s, *a: getattr(Seq(s), op)(*a), result)]
        out += [("of_iterable", lambda s, *a: result(getattr(Seq.of_iterable(s), op)(*a))), ("of", lambda s, *a: result(getattr(Seq.of(*s), op)(*a)))]
    return out


def plain(op, result=full, method=True, name=None):
    m = getattr(seq, op)
    out = [(n.format("module"), f) for n, f in make(lambda s: m(s), result)]
    if method:
        out += [(n.format("method"), f) for n, f in make(lambda s: getattr(Seq(s), op)(), result)]
    return out


def same(x):
    return x


FORMS = {op: forms(op) for op in ["map", "mapi", "starmap", "choose", "collect", "filter", "skip", "take", "append"]}
FORMS.update({op: forms(op, same) for op in ["fold", "sum_by", "try_find_index", "try_pick"]})
FORMS["scan"] = forms("scan")
FORMS.update({op: forms(op, full, method=False) for op in ["map2", "map3"]})
FORMS.update({op: forms(op, same, method=False) for op in ["iter", "max_by", "min_by"]})
FORMS["fold_back"] = [(n.format("module"), f) for n, f in make(lambda s, g, st: seq.fold_back(g, s)(st), same)]
FORMS["concat"] = [("module", lambda xs: full(seq.concat(*xs))), ("module-gens", lambda xs: full(seq.concat(*[(x for x in y) for y in xs])))] + \
    [(n.format("method"), f) for n, f in make(lambda s: Seq(s).concat(), full)] + [("nested", lambda xs: full(Seq(Seq(x) for x in xs).concat()))]
FORMS.update({op: plain(op, same) for op in ["head", "length", "sum", "to_list"]})
FORMS.update({op: plain(op, same, method=False) for op in ["max", "min"]})
FORMS["pairwise"] = plain("pairwise")
FORMS["seq.tail"] = plain("tail")
FORMS["identity"] = [(n.format("of_iterable"), f) for n, f in make(seq.of_iterable, full)] + \
    [(n.format("of_list"), f) for n, f in make(seq.of_list, full)] + [("Seq", lambda s: full(Seq(Seq(s))))]
FORMS["zip"] = [(n.format("module"), f) for n, f in make(lambda s, o: seq.zip(s)(o), full)] + \
    [("module-gen", lambda s, o: full(seq.zip(s)(x for x in o)))] + \
    [(n.format("method"), f) for n, f in make(lambda s, o: Seq(s).zip(o), full)]
FORMS["of"] = [("static", lambda *a: full(Seq.of(*a))), ("module", lambda *a: full(seq.of(*a)))]
FORMS["singleton"] = [("module", lambda x: full(seq.singleton(x)))]
FORMS["empty"] = [("static", lambda: full(Seq.empty())), ("module", lambda: full(seq.empty)), ("ctor", lambda: full(Seq()))]
FORMS["unfold"] = [("static", lambda st, g: full(Seq.unfold(g, st))), ("module", lambda st, g: full(seq.unfold(g)(st))), ("pipe", lambda st, g: full(pipe(st, seq.unfold(g))))]
FORMS["delay"] = [("static", lambda g: full(Seq.delay(g))), ("module", lambda g: full(seq.delay(g)))]
FORMS["infinite"] = [("module", lambda n, g: list(itertools.islice(iter(seq.init_infinite(g)), n))),
                     ("take", lambda n, g: full(pipe(seq.init_infinite(g), seq.take(n))))]
for k in ("range1", "range2", "range3"):
    FORMS[k] = [("static", lambda *a: full(Seq.range(*a))), ("module", lambda *a: full(seq.range(*a)))]

# the second operand (or the sequences a callback returns) in every kind, too
for _n, _mk in SOURCES.items():
    FORMS["zip"] += [(f"method-other:{_n}", lambda s, o, mk=_mk: full(Seq(s).zip(mk(o)))), (f"module-other:{_n}", lambda s, o, mk=_mk: full(seq.zip(Seq(s))(mk(o))))]
    FORMS["append"] += [(f"method-other:{_n}", lambda s, *o, mk=_mk: full(Seq(s).append(*[mk(x) for x in o]))),
                        (f"module-other:{_n}", lambda s, *o, mk=_mk: full(seq.append(*[mk(x) for x in o])(s)))]
    FORMS["concat"] += [(f"module-other:{_n}", lambda xs, mk=_mk: full(seq.concat(*[mk(x) for x in xs]))), (f"method-other:{_n}", lambda xs, mk=_mk: full(Seq([mk(x) for x in xs]).concat()))]
    FORMS["collect"] += [(f"method-other:{_n}", lambda s, f, mk=_mk: full(Seq(s).collect(lambda x: mk(list(f(x)))))),
                         (f"module-other:{_n}", lambda s, f, mk=_mk: full(seq.collect(lambda x: mk(list(f(x))))(s)))]
