"""Public API forms of Option and Result operations."""
from expression import Error, Failure, Nothing, Ok, Option, Result, Some, Success, option, pipe, pipe2, result


def opt_match(o):
    match o:
        case Option(tag="some", some=x):
            return ("some", x)
        case Option(tag="none"):
            return ("none", None)


def res_match(r):
    match r:
        case Result(tag="ok", ok=x):
            return ("ok", x)
        case Result(tag="error", error=e):
            return ("error", e)


def curried(op, module):
    """Method, module-level, reused partial and the two piped forms of a curried function op(*extra)(source)."""
    m = getattr(module, op)
    return [
        ("method", lambda s, *a: getattr(s, op)(*a)),
        ("module", lambda s, *a: m(*a)(s)),
        ("pipe", lambda s, *a: pipe(s, m(*a))),
        ("x.pipe", lambda s, *a: s.pipe(m(*a))),
    ]


def plain(op, module):
    m = getattr(module, op)
    return [
        ("method", lambda s, *a: getattr(s, op)(*a)),
        ("module", lambda s, *a: m(s, *a)),
    ] + ([("pipe", lambda s: pipe(s, m)), ("x.pipe", lambda s: s.pipe(m))] if op in ("is_some", "is_none", "to_list", "to_seq", "to_optional", "is_ok", "is_error", "swap", "merge", "to_option") else [])


FORMS = {}
for _op in ("map", "apply", "starmap", "bind", "default_value", "default_with"):
    FORMS[f"opt.{_op}"] = curried(_op, option)
for _op in ("or_else", "to_result", "to_result_with", "to_list", "to_seq", "to_optional", "is_some", "is_none"):
    FORMS[f"opt.{_op}"] = plain(_op, option)
for _op in ("filter", "or_else_with"):
    FORMS[f"opt.{_op}"] = [("method", lambda s, *a, _op=_op: getattr(s, _op)(*a))]
FORMS["opt.map2"] = [
    ("method", lambda a, b, f: a.map2(f, b)),
    ("module", lambda a, b, f: option.map2(f)(a)(b)),
    ("pipe2", lambda a, b, f: pipe2((a, b), option.map2(f))),
]
FORMS["opt.default_arg"] = [("module", lambda o, v: option.default_arg(o, v))]
FORMS["opt.value"] = [("property", lambda o: o.value)]
for _op in ("of_optional", "of_obj", "of_result"):
    FORMS[f"opt.{_op}"] = [
        ("static", lambda v, _op=_op: getattr(Option, _op)(v)),
        ("module", lambda v, _op=_op: getattr(option, _op)(v)),
        ("pipe", lambda v, _op=_op: pipe(v, getattr(option, _op))),
    ]
FORMS["opt.Some"] = [("Some", lambda v: Some(v)), ("Option.Some", lambda v: Option.Some(v)),
                     ("Option(some=)", lambda v: Option(some=v)), ("option.Some", lambda v: option.Some(v))]
FORMS["opt.Nothing"] = [("Nothing", lambda: Nothing), ("Option.Nothing()", lambda: Option.Nothing()),
                        ("option.Nothing", lambda: option.Nothing)]
FORMS["opt.eq"] = [("==", lambda a, b: a == b)]
FORMS["opt.ne"] = [("!=", lambda a, b: a != b)]
FORMS["opt.match"] = [("match", opt_match)]

for _op in ("map", "map_error", "apply", "bind", "filter", "filter_with", "or_else", "or_else_with", "default_value", "default_with"):
    FORMS[f"res.{_op}"] = curried(_op, result)
for _op in ("swap", "merge", "to_option", "is_ok", "is_error"):
    FORMS[f"res.{_op}"] = plain(_op, result)
FORMS["res.map2"] = [
    ("method", lambda a, b, f: a.map2(b, f)),
    ("module", lambda a, b, f: result.map2(f)(a)(b)),
    ("pipe2", lambda a, b, f: pipe2((a, b), result.map2(f))),
]
for _op in ("of_option", "of_option_with"):
    FORMS[f"res.{_op}"] = [
        ("class", lambda o, e, _op=_op: getattr(Result, _op)(o, e)),
        ("module", lambda o, e, _op=_op: getattr(result, _op)(o, e)),
    ]
FORMS["res.Ok"] = [("Ok", lambda v: Ok(v)), ("Result.Ok", lambda v: Result.Ok(v)), ("Result(ok=)", lambda v: Result(ok=v)),
                   ("result.Ok", lambda v: result.Ok(v)), ("Success", lambda v: Success(v))]
FORMS["res.Error"] = [("Error", lambda v: Error(v)), ("Result.Error", lambda v: Result.Error(v)), ("Result(error=)", lambda v: Result(error=v)),
                      ("result.Error", lambda v: result.Error(v)), ("Failure", lambda v: Failure(v))]
FORMS["res.eq"] = [("==", lambda a, b: a == b)]
FORMS["res.ne"] = [("!=", lambda a, b: a != b)]
FORMS["res.match"] = [("match", res_match)]
