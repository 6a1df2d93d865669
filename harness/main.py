"""Parent process: runs one check in a child with a time limit and maps the outcome to 0/1 (2: machinery error)."""
from __future__ import annotations

import argparse
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = Path(os.environ.get("VERIF_EVIDENCE") or ROOT / "evidence")


def child(a):
    sys.path.insert(0, REPO)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    from harness import core

    sys.exit(core.run_check(a.prop, a.tier, a.seed, a.scratch))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scratch")
    ap.add_argument("--child", action="store_true")
    a = ap.parse_args()
    if a.child:
        child(a)
    limit = 780 if a.tier == "quick" else 24 * 3600
    scratch = tempfile.mkdtemp(prefix=f"verif-{a.prop}-")
    t0 = time.time()
    rc = 2
    try:
        env = dict(os.environ, PYTHONPYCACHEPREFIX=scratch + "/pyc", PYTHONPATH=f"{REPO}:{ROOT}", TMPDIR=scratch)
        cmd = [sys.executable, "-X", "faulthandler", "-m", "harness.main", a.prop, "--tier", a.tier, "--seed", str(a.seed),
               "--scratch", scratch, "--child"]
        p = subprocess.Popen(cmd, cwd=ROOT, env=env, start_new_session=True)
        timed_out = False

        def term(sig, frm):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            shutil.rmtree(scratch, ignore_errors=True)
            os._exit(2)

        signal.signal(signal.SIGTERM, term)
        signal.signal(signal.SIGINT, term)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            timed_out = True
            rc = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        if rc not in (0, 1):
            phase = ""
            try:
                phase = Path(scratch, "phase").read_text()
            except OSError:
                pass
            if phase.startswith("code:") and (timed_out or (rc is not None and rc < 0)):
                # the code under test hung or killed the interpreter
                d = EVID / "replays"
                d.mkdir(parents=True, exist_ok=True)
                rp = d / f"{a.prop}-abort.json"
                what = "did not terminate" if timed_out else f"killed the interpreter (signal {-rc})"
                rp.write_text(json.dumps({"property": a.prop, "what": what, "phase": phase, "seed": a.seed}))
                (EVID / f"{a.prop}.json").write_text(json.dumps({
                    "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "model_checking",
                    "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [phase]},
                    "wall_s": round(time.time() - t0, 2), "violations": 1}))
                print(f"VIOLATION property={a.prop} replay={rp}\n  code under test {what}: {phase}", flush=True)
                rc = 1
            else:
                print(f"error: check ended with {rc} timed_out={timed_out} phase={phase}", file=sys.stderr)
                rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
