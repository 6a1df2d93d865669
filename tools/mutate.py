"""Mutation survey: python3 tools/mutate.py gen|tests|checks DIR [-j N]

gen: every single-point syntactic mutation of the library's code, as DIR/mutants.json.
tests: run the file's own tests of the repository on each (in scratch copies); survivors get "tests": "pass".
checks: run the checks of the file's properties on each survivor; a mutant no check notices gets "checks": "quiet".
The outcome is read by a person: a quiet mutant is an equivalent one or a gap.
"""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
PY = "/opt/venv/bin/python"
PROPS = {
    "core/option.py": "C01 C23 C24", "core/result.py": "C02 C23 C24", "core/try_.py": "C02 C24", "core/builder.py": "C03", "effect/option.py": "C03",
    "effect/result.py": "C03", "effect/seq.py": "C03", "core/async_builder.py": "C04", "effect/async_option.py": "C04", "effect/async_result.py": "C04",
    "extra/result/pipeline.py": "C05", "extra/option/pipeline.py": "C05", "extra/result/catch.py": "C05", "extra/result/traversable.py": "C05",
    "core/tagged_union.py": "C06 C24", "collections/block.py": "C07 C23 C24", "collections/map.py": "C08 C09 C10 C24", "collections/maptree.py": "C08 C10 C09",
    "collections/seq.py": "C11 C12 C24", "collections/asyncseq.py": "C13", "collections/array.py": "C14 C24", "core/mailbox.py": "C15 C16",
    "system/cancellation.py": "C17", "system/disposable.py": "C18", "core/aiotools.py": "C19", "extra/parser.py": "C20", "core/pipe.py": "C21",
    "core/compose.py": "C21", "core/curry.py": "C21", "core/misc.py": "C21", "core/fn.py": "C22", "core/typing.py": "C25", "core/error.py": "C03 C20",
}
TESTS = {
    "option.py": "option option_builder gen", "result.py": "result result_builder try", "builder.py": "option_builder result_builder seq_builder gen", "seq.py": "seq seq_builder gen",
    "async_builder.py": "async_option_builder async_result_builder", "async_option.py": "async_option_builder", "async_result.py": "async_result_builder",
    "pipeline.py": "compose result option", "catch.py": "catch", "traversable.py": "result", "tagged_union.py": "tagged_union option result", "block.py": "block", "map.py": "map",
    "maptree.py": "map", "asyncseq.py": "asyncseq", "array.py": "array", "mailbox.py": "mailbox", "cancellation.py": "cancellation", "disposable.py": "disposable cancellation",
    "aiotools.py": "asyncseq mailbox cancellation", "parser.py": "parser", "pipe.py": "pipe", "compose.py": "compose", "curry.py": "curried", "misc.py": "pipe compose", "fn.py": "fn",
    "typing.py": "typing", "error.py": "option_builder result_builder", "try_.py": "try",
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!=", "is"], ast.NotEq: ["=="], ast.Is: ["is not", "=="],
       ast.IsNot: ["is", "!="], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+"], ast.FloorDiv: ["*"], ast.Mod: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"]}


class Gen:
    def __init__(self, path):
        self.path, self.src = path, path.read_text()
        self.lines = [0]
        for l in self.src.encode().split(b"\n"):
            self.lines.append(self.lines[-1] + len(l) + 1)
        self.b = self.src.encode()
        self.out = []

    def pos(self, n):
        return self.lines[n.lineno - 1] + n.col_offset, self.lines[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, z = self.pos(n)
        return self.b[a:z].decode()

    def put(self, n, new, kind):
        a, z = self.pos(n)
        self.put_at(a, z, new, kind, n.lineno)

    def put_at(self, a, z, new, kind, line):
        if self.b[a:z].decode() != new:
            self.out.append({"file": str(self.path.relative_to(REPO)), "line": line, "a": a, "z": z, "old": self.b[a:z].decode(), "new": new, "kind": kind})

    def run(self):
        self.body(ast.parse(self.src).body, False)
        return self.out

    def body(self, stmts, infn):
        for i, s in enumerate(stmts):
            self.stmt(s, infn, len(stmts))

    def stmt(self, s, infn, n):
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if any("overload" in self.seg(d) or "abstractmethod" in self.seg(d) for d in s.decorator_list):
                return
            for d in s.args.defaults + [k for k in s.args.kw_defaults if k]:
                self.expr(d)
            self.body(s.body, True)
            return
        if isinstance(s, ast.ClassDef):
            self.body(s.body, False)
            return
        if isinstance(s, ast.If) and "TYPE_CHECKING" in self.seg(s.test):
            return
        if not infn and isinstance(s, (ast.Assign, ast.AnnAssign)):
            return
        ind = " " * s.col_offset
        if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) and infn:
            self.put(s, "pass", "drop statement")
        if isinstance(s, (ast.Break, ast.Continue)):
            self.put(s, "continue" if isinstance(s, ast.Break) else "break", "break/continue")
        if isinstance(s, ast.Return) and s.value is not None:
            if not (isinstance(s.value, ast.Constant) and s.value.value is None):
                self.put(s.value, "None", "return None")
        if isinstance(s, ast.If):
            self.put(s.test, f"not ({self.seg(s.test)})", "negate")
            self.put(s.test, "True", "if True")
            self.put(s.test, "False", "if False")
        if isinstance(s, ast.With) and infn:
            pass
        if isinstance(s, ast.Try):
            for h in s.handlers:
                if h.type is not None:
                    t = self.seg(h.type)
                    self.put(h.type, "BaseException" if t != "BaseException" else "Exception", "except wider")
                    self.put(h.type, "ZeroDivisionError", "except nothing")
                self.body(h.body, infn)
            self.body(s.body, infn)
            self.body(s.orelse, infn)
            self.body(s.finalbody, infn)
            return
        if isinstance(s, ast.Match):
            self.expr(s.subject)
            for c in s.cases:
                if c.guard:
                    self.put(c.guard, "True", "guard True")
                    self.expr(c.guard)
                self.body(c.body, infn)
            return
        for f, v in ast.iter_fields(s):
            if f in ("annotation", "returns", "type_params"):
                continue
            if isinstance(v, ast.expr):
                if f == "target" or f == "targets":
                    continue
                self.expr(v)
            elif isinstance(v, list):
                if v and isinstance(v[0], ast.stmt):
                    self.body(v, infn)
                elif v and isinstance(v[0], ast.expr) and f != "targets":
                    for e in v:
                        self.expr(e)
                elif v and isinstance(v[0], ast.withitem):
                    for e in v:
                        self.expr(e.context_expr)

    def expr(self, e):
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r = e.left, e.comparators[0]
            for new in CMP.get(type(e.ops[0]), []):
                self.put(e, f"{self.seg(l)} {new} {self.seg(r)}", "compare")
            if isinstance(e.ops[0], (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and r.value is None:
                self.put(e, ("not " if isinstance(e.ops[0], ast.Is) else "bool") + f"({self.seg(l)})", "truthiness")
        elif isinstance(e, ast.BinOp) and type(e.op) in BIN:
            for new in BIN[type(e.op)]:
                self.put(e, f"{self.seg(e.left)} {new} {self.seg(e.right)}", "binop")
        elif isinstance(e, ast.BoolOp):
            op = "or" if isinstance(e.op, ast.And) else "and"
            self.put(e, f" {op} ".join(f"({self.seg(v)})" for v in e.values), "and/or")
            for i in range(len(e.values)):
                self.put(e, (" and " if op == "or" else " or ").join(f"({self.seg(v)})" for j, v in enumerate(e.values) if j != i), "drop operand")
        elif isinstance(e, ast.UnaryOp):
            self.put(e, self.seg(e.operand), "drop unary")
        elif isinstance(e, ast.IfExp):
            self.put(e, f"{self.seg(e.orelse)} if {self.seg(e.test)} else {self.seg(e.body)}", "swap if-else")
        elif isinstance(e, ast.Constant):
            if e.value is True or e.value is False:
                self.put(e, str(not e.value), "constant")
            elif isinstance(e.value, int):
                self.put(e, str(e.value + 1), "constant")
                self.put(e, str(e.value - 1), "constant")
            return
        elif isinstance(e, ast.Call):
            fn = self.seg(e.func)
            if fn in ("cast", "TypeVar", "super", "ParamSpec"):
                for a in e.args[1:]:
                    self.expr(a)
                return
            if len(e.args) == 2 and not any(isinstance(a, ast.Starred) for a in e.args):
                a, b = map(self.seg, e.args)
                s0, z0 = self.pos(e.args[0])[0], self.pos(e.args[1])[1]
                self.put_at(s0, z0, f"{b}, {a}", "swap args", e.lineno)
            if len(e.args) == 1 and not e.keywords and not isinstance(e.args[0], ast.Starred):
                self.put(e, self.seg(e.args[0]), "drop call")
            for k in e.keywords:
                if k.arg:
                    pass
            if isinstance(e.func, ast.Attribute):
                self.expr(e.func.value)
            for a in e.args:
                self.expr(a)
            for k in e.keywords:
                self.expr(k.value)
            return
        elif isinstance(e, ast.Lambda):
            self.expr(e.body)
            return
        elif isinstance(e, (ast.Yield, ast.YieldFrom)):
            if e.value is not None:
                self.expr(e.value)
            return
        elif isinstance(e, ast.Subscript):
            self.expr(e.value)
            if isinstance(e.slice, (ast.Constant, ast.Slice, ast.BinOp, ast.UnaryOp)):
                self.expr(e.slice)
            return
        elif isinstance(e, ast.Slice):
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.put(x, "None", "slice bound")
                    self.expr(x)
            return
        elif isinstance(e, (ast.GeneratorExp, ast.ListComp)):
            for g in e.generators:
                for c in g.ifs:
                    self.put(c, "True", "if True")
                    self.expr(c)
                self.expr(g.iter)
            self.expr(e.elt)
            return
        elif isinstance(e, ast.JoinedStr):
            return
        for v in ast.iter_child_nodes(e):
            if isinstance(v, ast.expr):
                self.expr(v)


def gen(d):
    out = []
    for f in PROPS:
        out += Gen(REPO / "expression" / f).run()
    seen, uniq = set(), []
    for m in out:
        k = (m["file"], m["a"], m["z"], m["new"])
        if k not in seen:
            seen.add(k)
            uniq.append(m)
    for i, m in enumerate(uniq):
        m["id"] = i
    (d / "mutants.json").write_text(json.dumps(uniq, indent=0))
    print(len(uniq), "mutants")


local = threading.local()
lock = threading.Lock()


def workdir(d):
    if not hasattr(local, "w"):
        local.w = Path(tempfile.mkdtemp(prefix="mut-", dir="/tmp"))
        subprocess.run(["cp", "-a", str(REPO), str(local.w / "repo")], check=True)
    return local.w / "repo"


def apply(repo, m):
    p = repo / m["file"]
    b = (REPO / m["file"]).read_bytes()
    assert b[m["a"]:m["z"]].decode() == m["old"]
    p.write_bytes(b[:m["a"]] + m["new"].encode() + b[m["z"]:])
    return p


def tests(m, d):
    repo = workdir(d)
    p = apply(repo, m)
    try:
        try:
            compile(p.read_text(), str(p), "exec")
        except SyntaxError:
            return "syntax"
        env = dict(os.environ, PYTHONPATH=str(repo), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HYPOTHESIS_STORAGE_DIRECTORY=str(repo.parent / "hyp"))
        try:
            r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--hypothesis-profile=ci", "--timeout=60",
                                *[f"tests/test_{t}.py" for t in TESTS[m["file"].rsplit("/", 1)[1]].split()]], cwd=repo, env=env,
                               capture_output=True, text=True, timeout=150)
        except subprocess.TimeoutExpired:
            return "timeout"
        return "pass" if r.returncode == 0 else "fail"
    finally:
        shutil.copy(REPO / m["file"], p)


def checks(m, d):
    repo = workdir(d)
    p = apply(repo, m)
    try:
        rel = m["file"].removeprefix("expression/")
        for prop in PROPS[rel].split():
            ev = repo.parent / "ev"
            shutil.rmtree(ev, ignore_errors=True)
            ev.mkdir()
            env = dict(os.environ, VERIF_REPO=str(repo), VERIF_EVIDENCE=str(ev), VERIF_SEED="1", VERIF_TIER="quick")
            r = subprocess.run([str(ROOT / "bin/check"), prop, "--tier", "quick"], env=env, capture_output=True, text=True)
            if r.returncode != 0:
                return f"{prop} rc={r.returncode}"
        return "quiet"
    finally:
        shutil.copy(REPO / m["file"], p)


def main():
    what, d = sys.argv[1], Path(sys.argv[2])
    j = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 4
    if what == "gen":
        return gen(d)
    ms = json.loads((d / "mutants.json").read_text())
    res_file = d / f"{what}.json"
    res = json.loads(res_file.read_text()) if res_file.exists() else {}
    todo = [m for m in ms if str(m["id"]) not in res]
    if what == "checks":
        t = json.loads((d / "tests.json").read_text())
        todo = [m for m in todo if t.get(str(m["id"])) == "pass"]
    only = [a for a in sys.argv[3:] if a.endswith(".py")]
    if only:
        todo = [m for m in todo if any(m["file"].endswith(o) for o in only)]
    random.Random(1).shuffle(todo)
    print(len(todo), "to do", flush=True)

    def go(m):
        r = (tests if what == "tests" else checks)(m, d)
        with lock:
            res[str(m["id"])] = r
            res_file.write_text(json.dumps(res))
            if what == "checks":
                print(m["id"], r, m["file"], m["line"], m["kind"], repr(m["old"][:60]), "->", repr(m["new"][:60]), flush=True)

    with ThreadPoolExecutor(j) as ex:
        list(ex.map(go, todo))


if __name__ == "__main__":
    main()
