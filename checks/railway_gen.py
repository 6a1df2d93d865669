"""Random arguments for Option/Result histories (kinds mirror the spec's domains)."""

BOOMS = ["boom", "boomV", "boomK", "boomI", "boomT", "boomA", "boomE"]
VALFNS = ["f", "g", "none", "zero", "id", "some_id", "some_f", "nothing", "err_none", "ok_f"]
THUNKS = ["f", "none", "zero", "estr", "nothing", "ok_none", "err_none"]
OPTFNS = ["some_f", "some_id", "some_none", "nothing"]
OPTTHUNKS = ["some_f", "some_none", "nothing"]
RESFNS = ["ok_f", "ok_id", "ok_none", "err_g", "err_none"]
PREDS = ["pT", "pF", "p1", "pS", "two", "pL", "zero", "none", "estr", "f"]
BINFNS = ["f", "none", "pair", "snd", "id"]

BASE = [["none"], ["bool", False], ["bool", True], ["int", 0], ["int", 1], ["int", -7], ["str", ""], ["str", "a"], ["tup", []],
        ["list", []], ["tok", 1, 1], ["tok", 1, 2], ["block", []], ["app", "k", []]]


def value(rng, depth=3, opaque=True):
    x = rng.random()
    if depth == 0 or x < 0.4:
        pool = BASE + ([["weird", 1], ["weird", 2], ["fn", "k"]] if opaque else [])
        return rng.choice(pool)
    k = rng.choice(["some", "nothing", "ok", "error", "tup", "list"])
    if k == "nothing":
        return ["nothing"]
    if k in ("tup", "list"):
        return [k, [value(rng, depth - 1, opaque) for _ in range(rng.randint(0, 2))]]
    return [k, value(rng, depth - 1, opaque)]


def opt(rng, **k):
    return ["nothing"] if rng.random() < 0.35 else ["some", value(rng, **k)]


def res(rng, **k):
    return [rng.choice(["ok", "error"]), value(rng, **k)]


def fn(rng, names, boom=0.1):
    return ["fn", rng.choice(BOOMS) if rng.random() < boom else rng.choice(names)]


SIG = {
    "opt.map": ["opt", VALFNS], "opt.map2": ["opt", "opt", BINFNS], "opt.apply": ["opt", "optfn"], "opt.bind": ["opt", OPTFNS],
    "opt.filter": ["opt", PREDS], "opt.or_else": ["opt", "opt"], "opt.or_else_with": ["opt", OPTTHUNKS],
    "opt.default_value": ["opt", "val"], "opt.default_arg": ["opt", "val"], "opt.default_with": ["opt", THUNKS],
    "opt.to_list": ["opt"], "opt.to_seq": ["opt"], "opt.to_optional": ["opt"], "opt.to_result": ["opt", "val"],
    "opt.to_result_with": ["opt", THUNKS], "opt.of_optional": ["val"], "opt.of_obj": ["val"], "opt.of_result": ["res"],
    "opt.is_some": ["opt"], "opt.is_none": ["opt"], "opt.value": ["opt"], "opt.Some": ["val"], "opt.match": ["opt"],
    "opt.eq": ["eqopt", "eqopt"], "opt.ne": ["eqopt", "eqopt"], "opt.starmap": ["tupopt", ["f", "none"]],
    "res.map": ["res", VALFNS], "res.map_error": ["res", VALFNS], "res.map2": ["res", "res", BINFNS], "res.apply": ["res", "resfn"],
    "res.bind": ["res", RESFNS], "res.filter": ["res", PREDS, "val"], "res.filter_with": ["res", PREDS, VALFNS],
    "res.or_else": ["res", "res"], "res.or_else_with": ["res", RESFNS], "res.default_value": ["res", "val"],
    "res.default_with": ["res", VALFNS], "res.swap": ["res"], "res.merge": ["res"], "res.to_option": ["res"],
    "res.of_option": ["opt", "val"], "res.of_option_with": ["opt", THUNKS], "res.is_ok": ["res"], "res.is_error": ["res"],
    "res.Ok": ["val"], "res.Error": ["val"], "res.match": ["res"], "res.eq": ["eqres", "eqres"], "res.ne": ["eqres", "eqres"],
}


def has_opaque(t):
    return isinstance(t, list) and (t[:1] in (["weird"], ["fn"], ["seq"]) or any(has_opaque(x) for x in t))


def gen_case(ops):
    def gen(rng, tags):
        op = rng.choice(ops)
        args = []
        for kind in SIG[op]:
            if isinstance(kind, list):
                args.append(fn(rng, kind))
                continue
            want = {"opt": ("some", "nothing"), "eqopt": ("some", "nothing"), "res": ("ok", "error"), "eqres": ("ok", "error")}.get(kind)
            if kind == "optfn":
                args.append(["nothing"] if rng.random() < 0.3 else ["some", fn(rng, VALFNS)])
            elif kind == "resfn":
                args.append(["error", value(rng)] if rng.random() < 0.3 else ["ok", fn(rng, VALFNS)])
            elif kind == "tupopt":
                args.append(["nothing"] if rng.random() < 0.3 else ["some", ["tup", [value(rng) for _ in range(rng.randint(0, 8))]]])
            else:
                eq = kind.startswith("eq")
                cand = [i for i, t in enumerate(tags) if (want is None or t[0] in want) and len(str(t)) < 400
                        and t[0] != "seq" and not (eq and has_opaque(t))]
                if cand and rng.random() < 0.7:
                    args.append(("reg", rng.choice(cand)))
                elif kind == "val":
                    args.append(value(rng))
                elif kind in ("opt", "eqopt"):
                    args.append(opt(rng, opaque=not eq))
                else:
                    args.append(res(rng, opaque=not eq))
        return op, args

    return gen


def gen_lit(rng):
    return rng.choice([opt, res, value])(rng)
