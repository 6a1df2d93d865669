"""Plant bugs: python3 tools/mkseed.py DEFS.py [ID...]

DEFS.py holds a list BUGS of dicts: id, property, edits=[(file, old, new)], demo (Python source, exits nonzero on the
bug), needs, breaks.  Each bug is applied to a scratch copy of /repo, the test suite is run there, the demo is run on
the clean and the changed copy, and, if everything is as it must be, /verif/seeded/<id>/ is written.  Then the check of
its property is run against the copy (VERIF_REPO) and the outcome printed.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\n# Exit 0: the property holds; nonzero: it is broken.  Run with cwd = the repository.\nset -u\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$here/demo.py"\n'


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)


def one(b):
    tmp = Path(tempfile.mkdtemp(prefix="seed-"))
    try:
        repo = tmp / "repo"
        sh(["cp", "-a", "/repo", str(repo)], "/")
        sh(["git", "checkout", "-q", "--", "."], repo)
        for f, old, new in b["edits"]:
            p = repo / f
            s = p.read_text()
            if s.count(old) != 1:
                return b["id"], f"EDIT: {f}: {s.count(old)} matches for {old[:50]!r}"
            p.write_text(s.replace(old, new))
        diff = sh(["git", "diff"], repo).stdout
        d = tmp / "demo"
        d.mkdir()
        (d / "demo.py").write_text(b["demo"].lstrip("\n"))
        (d / "demo.sh").write_text(DEMO_SH)
        r = sh(["bash", str(d / "demo.sh")], repo)
        if r.returncode == 0:
            return b["id"], "DEMO passes with the bug"
        bad = r
        r = sh(["bash", str(d / "demo.sh")], "/repo")
        if r.returncode != 0:
            return b["id"], "DEMO fails on the clean tree: " + r.stderr[-400:]
        env = {"PYTHONPATH": str(repo), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
               "HYPOTHESIS_STORAGE_DIRECTORY": str(tmp / "hyp")}
        r = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--hypothesis-profile=ci", "--timeout=300",
                "-n0" if False else "-q"], repo, env)
        if r.returncode != 0:
            return b["id"], "TESTS fail: " + r.stdout[-600:]
        out = ROOT / "seeded" / b["id"]
        shutil.rmtree(out, ignore_errors=True)
        out.mkdir(parents=True)
        (out / "patch.diff").write_text(diff)
        for n in ("demo.py", "demo.sh"):
            shutil.copy(d / n, out / n)
        os.chmod(out / "demo.sh", 0o755)
        (out / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        if not (ROOT / "checks" / f"{b['property'].lower()}.py").exists():
            return b["id"], "kept; no check yet"
        r = sh([str(ROOT / "bin/check"), b["property"]], ROOT, {"VERIF_REPO": str(repo), "VERIF_SEED": "1", "VERIF_EVIDENCE": str(tmp / "ev")})
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + b["property"])]
        return b["id"], f"kept; {'CAUGHT' if r.returncode == 1 and v else '**MISSED**'} rc={r.returncode} " + (v[0] if v else r.stdout[-300:] + r.stderr[-300:])
    except Exception as e:
        return b["id"], f"ERROR {type(e).__name__} {e}"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


bugs = runpy.run_path(sys.argv[1])["BUGS"]
if len(sys.argv) > 2:
    bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
with ThreadPoolExecutor(3) as ex:
    for i, s in ex.map(one, bugs):
        print(i, "::", s, flush=True)
