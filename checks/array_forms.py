"""Public API forms of TypedArray operations."""
from expression import pipe
from expression.collections import TypedArray, array
from expression.collections.array import (
    TypeCode, double, float32, int8, int16, int32, int64, uint8, uint16, uint32, uint64)

ELEM = {"Int8": int8, "Int16": int16, "Int32": int32, "Int64": int64, "Uint8": uint8, "Uint16": uint16, "Uint32": uint32,
        "Uint64": uint64, "Float": float32, "Double": double}


def forms_of(op, module=True, curried=True):
    out = [("method", lambda s, *a: getattr(s, op)(*a))]
    if module:
        m = getattr(array, op)
        if curried:
            out += [("module", lambda s, *a: m(*a)(s)), ("pipe", lambda s, *a: pipe(s, m(*a))), ("x.pipe", lambda s, *a: s.pipe(m(*a)))]
        else:
            out += [("module", lambda s: m(s)), ("pipe", lambda s: pipe(s, m))]
    return out


FORMS = {op: forms_of(op) for op in ["map", "filter", "fold", "item", "sum_by", "take", "take_last"]}
FORMS.update({op: forms_of(op, module=False) for op in ["choose", "collect", "forall", "head", "tail", "skip", "skip_last", "sort", "sort_with"]})
FORMS.update({op: forms_of(op, curried=False) for op in ["is_empty", "sum", "try_head"]})
FORMS["sort"] += [("kw", lambda s, r: s.sort(reverse=r))]
FORMS["sort_with"] += [("kw", lambda s, f, r: s.sort_with(f, reverse=r))]
FORMS["sort"] += [("default", lambda s, r: s.sort(r) if r else s.sort())]
FORMS["sort_with"] += [("default", lambda s, f, r: s.sort_with(f, r) if r else s.sort_with(f))]
FORMS["indexed"] = [("method", lambda b, s: b.indexed(s)), ("kw", lambda b, s: b.indexed(start=s)), ("module", lambda b, s: array.indexed(s)(b)),
                    ("default", lambda b, s: b.indexed() if s == 0 else b.indexed(s)),
                    ("mdefault", lambda b, s: array.indexed()(b) if s == 0 else b.indexed(s))]
FORMS["len"] = [("len", len), ("iter", lambda b: sum(1 for _ in b))]
FORMS["iterate"] = [("list", list), ("index", lambda b: [b[i] for i in range(len(b))])]
FORMS["reversed"] = [("reversed", lambda b: list(reversed(b)))]
FORMS["getitem"] = [("[]", lambda b, i: b[i])]
FORMS["slice"] = [("[:]", lambda b, x, y: list(b[x:y]))]
FORMS["slice3"] = [("[::]", lambda b, x, y, k: list(b[x:y:k])), ("slice", lambda b, x, y, k: list(b[slice(x, y, k)]))]
FORMS["contains"] = [("in", lambda b, x: x in b)]
FORMS["index"] = [("index", lambda b, x: b.index(x))]
FORMS["count"] = [("count", lambda b, x: b.count(x))]
FORMS["eq"] = [("==", lambda a, b: a == b), ("!=", lambda a, b: not (a != b)), ("sym", lambda a, b: b == a)]
FORMS["of"] = [("static", lambda *a: TypedArray.of(*a)), ("module", lambda *a: array.of(*a))]
FORMS["of_seq"] = [("static", TypedArray.of_seq), ("module", array.of_seq), ("ctor", TypedArray), ("gen", lambda xs: TypedArray(x for x in xs)),
                   ("iter", lambda xs: array.of_seq(iter(xs)))]
FORMS["of_option"] = [("module", array.of_option)]
FORMS["singleton"] = [("module", array.singleton)]
FORMS["empty"] = [("static", TypedArray.empty), ("module", array.empty), ("ctor", lambda: TypedArray())]
FORMS["unfold"] = [("static", lambda st, g: TypedArray.unfold(g, st)), ("module", lambda st, g: array.unfold(g)(st)),
                   ("pipe", lambda st, g: pipe(st, array.unfold(g)))]


FORMS["collect_reg"] = [("method", lambda b, o: b.collect(lambda _: o))]


def stmt(f):
    def go(*a):
        f(*a)

    return go


def setitem(b, i, x):
    b[i] = x


def delitem(b, i):
    del b[i]


def setslice(b, x, y, v):
    b[x:y] = v


def delslice(b, x, y):
    del b[x:y]


def setslice3(b, x, y, k, v):
    b[x:y:k] = v


def delslice3(b, x, y, k):
    del b[x:y:k]


def iadd(b, o):
    c = b
    c += o
    assert c is b


FORMS.update({
    "setitem": [("[]=", setitem)], "delitem": [("del", delitem)], "insert": [("insert", lambda b, i, x: b.insert(i, x))],
    "push": [("append", lambda b, x: b.append(x))], "extend": [("extend", lambda b, o: b.extend(o)), ("gen", lambda b, o: b.extend(x for x in list(o)))],
    "extend_self": [("extend", lambda b: b.extend(b)), ("+=", lambda b: iadd(b, b))],
    "iadd": [("+=", iadd)], "pop": [("pop", lambda b: b.pop())], "pop_at": [("pop", lambda b, i: b.pop(i))],
    "remove": [("remove", lambda b, x: b.remove(x))], "reverse": [("reverse", lambda b: b.reverse())], "clear": [("clear", lambda b: b.clear())],
    "setslice": [("[:]=", setslice)], "delslice": [("del[:]", delslice)],
    "setslice3": [("[::]=", setslice3)], "delslice3": [("del[::]", delslice3)],
})

REJECT = (OverflowError, ValueError, TypeError)


def answer(f, tc, n):
    try:
        arr = f(TypeCode[tc], n)
    except REJECT:
        return "rejected"
    if arr.typecode != TypeCode[tc]:
        return f"type code is {arr.typecode}"
    want = float(n.value) if tc in ("Float", "Double") else n.value
    if len(arr) != 1 or (arr[0] != want and tc != "Float") or (tc == "Float" and abs(arr[0] - want) > abs(want) / 1e6):
        return f"holds {list(arr)}"
    return "accepted"


def tc_set(tc, n):
    a = TypedArray([0], typecode=tc)
    a[0] = n.value
    return a


def tc_insert(tc, n):
    a = TypedArray([], typecode=tc)
    a.insert(0, n.value)
    return a


def tc_filter(tc, n):
    a = TypedArray([1, 0], typecode=tc).filter(lambda x: x == 0)
    a[0] = n.value
    return a


def tc_filter_empty(tc, n):
    a = TypedArray([1, 0], typecode=tc).pipe(array.filter(lambda x: False))
    a.insert(0, n.value)
    return a


def tc_elem(tc, n):
    # the first element decides the type
    a = TypedArray([ELEM[tc.name](1), n.value])
    del a[0]
    return a


for _n, _f in {"tc.new": lambda tc, n: TypedArray([n.value], typecode=tc), "tc.set": tc_set, "tc.insert": tc_insert, "tc.filter": tc_filter,
               "tc.filter_empty": tc_filter_empty, "tc.elem": tc_elem}.items():
    FORMS[_n] = [("typecode", lambda tc, n, _f=_f: answer(_f, tc, n))]
FORMS["tc.new"].append(("iter", lambda tc, n: answer(lambda t, m: TypedArray(iter([m.value]), t), tc, n)))
