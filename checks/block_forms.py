"""Public API forms of Block operations."""
from expression import pipe
from expression.collections import Block, block

from .railway_forms import curried


def b_match(b):
    match b:
        case Block((x, *rest)):
            return (x, list(rest))
        case Block(()):
            return ()


def both(op):
    m = getattr(block, op)
    return [("method", lambda s: getattr(s, op)()), ("module", lambda s: m(s)), ("pipe", lambda s: pipe(s, m))]


FORMS = {op: curried(op, block) for op in
         ["append", "choose", "collect", "filter", "fold", "forall", "item", "map", "reduce", "mapi", "partition", "skip", "skip_last",
          "sort", "sort_with", "sum_by", "take", "take_last", "zip"]}
FORMS.update({op: both(op) for op in ["head", "sum", "tail", "try_head"]})
FORMS["sort"] = FORMS["sort"] + [("method-kw", lambda s, r: s.sort(reverse=r)), ("module-kw", lambda s, r: block.sort(reverse=r)(s))]
FORMS["sort_with"] = FORMS["sort_with"] + [("method-kw", lambda s, f, r: s.sort_with(f, reverse=r)),
                                           ("module-kw", lambda s, f, r: block.sort_with(f, reverse=r)(s))]
FORMS["sort"] += [("method-default", lambda s, r: s.sort(r) if r else s.sort()), ("module-default", lambda s, r: block.sort(r)(s) if r else block.sort()(s))]
FORMS["sort_with"] += [("method-default", lambda s, f, r: s.sort_with(f, r) if r else s.sort_with(f)),
                       ("module-default", lambda s, f, r: block.sort_with(f, r)(s) if r else block.sort_with(f)(s))]
FORMS["starmap"] = [("method", lambda s, f: s.starmap(f)), ("module", lambda s, f: block.starmap(f)(s)), ("pipe", lambda s, f: pipe(s, block.starmap(f)))]
FORMS["map2"] = [("module", lambda s, f: block.map2(f)(s))]
FORMS["map3"] = [("module", lambda s, f: block.map3(f)(s))]
FORMS["is_empty"] = [("method", lambda s: s.is_empty()), ("module", block.is_empty), ("not", lambda s: len(s) == 0), ("bool", lambda s: not s)]
FORMS["add"] = [("+", lambda a, b: a + b)]
FORMS["concat"] = [("module", block.concat), ("gen", lambda xs: block.concat(x for x in xs)), ("tuple", lambda xs: block.concat(tuple(xs))),
                   ("block", lambda xs: block.concat(Block.of_seq(xs)))]
FORMS["cons"] = [("method", lambda b, x: b.cons(x)), ("module", lambda b, x: block.cons(x, b))]
FORMS["indexed"] = [("method", lambda b, s: b.indexed(s)), ("method-kw", lambda b, s: b.indexed(start=s)),
                    ("module", lambda b, s: block.indexed(b) if s == 0 else b.indexed(s)),
                    ("default", lambda b, s: b.indexed() if s == 0 else b.indexed(s))]
FORMS["len"] = [("len", len), ("iter", lambda b: sum(1 for _ in b))]
FORMS["iterate"] = [("list", list), ("for", lambda b: [x for x in b]), ("dict-free", lambda b: [b[i] for i in range(len(b))]),
                    ("rev", lambda b: list(reversed(list(reversed(b))))), ("twice", lambda b: (list(b), list(b))[1])]
FORMS["getitem"] = [("[]", lambda b, i: b[i])]
FORMS["slice"] = [("[:]", lambda b, x, y: b[x:y])]
FORMS["slice3"] = [("[::]", lambda b, x, y, k: b[x:y:k]), ("slice", lambda b, x, y, k: b[slice(x, y, k)])]
FORMS["contains"] = [("in", lambda b, x: x in b)]
FORMS["eq"] = [("==", lambda a, b: a == b), ("!=", lambda a, b: not (a != b)), ("sym", lambda a, b: b == a)]
FORMS["match"] = [("match", b_match)]
FORMS["of"] = [("static", lambda *a: Block.of(*a)), ("module", lambda *a: block.of(*a))]
FORMS["of_seq"] = [("static", Block.of_seq), ("module", block.of_seq), ("ctor", Block), ("gen", lambda xs: Block.of_seq(x for x in xs)),
                   ("gen-m", lambda xs: block.of_seq(iter(xs))), ("tuple", lambda xs: Block(tuple(xs)))]
FORMS["of_option"] = [("static", Block.of_option), ("module", block.of_option)]
FORMS["singleton"] = [("static", Block.singleton), ("module", block.singleton)]
FORMS["empty"] = [("static", Block.empty), ("module", lambda: block.empty), ("ctor", lambda: Block())]
FORMS["unfold"] = [("static", lambda st, g: Block.unfold(g, st)), ("module", lambda st, g: block.unfold(g)(st)),
                   ("pipe", lambda st, g: pipe(st, block.unfold(g)))]
for k in ("range1", "range2", "range3"):
    FORMS[k] = [("static", lambda *a: Block.range(*a)), ("module", lambda *a: block.range(*a))]
