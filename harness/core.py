"""Check context: verdicts, evidence, known findings."""
from __future__ import annotations

import contextlib
import json
import os
import random
import signal
import sys
import time
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
EVID = Path(os.environ.get("VERIF_EVIDENCE") or ROOT / "evidence")
MAX_VIOLATIONS = 5
BUDGET = 300  # seconds of exploration in the quick tier
SCHEDULED = {"C15", "C16", "C17", "C18", "C19"}  # the package is imported with scheduling points


class HangError(BaseException):
    """Raised by the watchdog inside code that does not come back."""


class Stop(Exception):
    """Enough violations collected."""


def load_findings(prop):
    """known_findings.txt lines:  known: property=<id> key=<key> <text>   |  fixed: ..."""
    out = {}
    p = ROOT / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith("known: "):
                parts = line[len("known: "):].split(" ", 2)
                pid = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                if pid == prop:
                    out[key] = parts[2] if len(parts) > 2 else ""
    return out


class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.scratch = Path(scratch)
        self.rng = random.Random(f"{prop}-{seed}")
        self.t0 = time.time()
        self.violations = []
        self.known_hit = {}
        self.findings = load_findings(prop)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.level = "model_checking"
        self.phase_file = self.scratch / "phase"

    # -- verdicts ---------------------------------------------------------
    def violation(self, what, detail=None, key=None):
        """Report a violation (or a known finding, when `key` is listed)."""
        if key is not None and key in self.findings:
            if key not in self.known_hit:
                self.known_hit[key] = what
                print(f"KNOWN-FINDING: property={self.prop} {self.findings[key]}", flush=True)
            return
        rdir = EVID / "replays"
        rdir.mkdir(parents=True, exist_ok=True)
        path = rdir / f"{self.prop}-{len(self.violations) + 1}.json"
        rec = {"property": self.prop, "tier": self.tier, "seed": self.seed, "what": what, "detail": detail,
               "rerun": f"VERIF_SEED={self.seed} bin/check {self.prop} --tier {self.tier}"}
        path.write_text(json.dumps(rec, indent=1, default=str))
        self.violations.append(rec)
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        print(f"  {what}: {json.dumps(detail, default=str)[:1500]}", flush=True)
        if len(self.violations) >= MAX_VIOLATIONS:
            raise Stop

    def phase(self, name):
        """Tell the parent process what is going on: 'code:...' means code under test is running."""
        with contextlib.suppress(OSError):
            self.phase_file.write_text(name)

    # -- coverage ---------------------------------------------------------
    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def tlc(self, module, cfg, **kw):
        from . import tlc

        self.phase(f"tlc:{module}")
        r = tlc.run(self.scratch, module, cfg, **kw)
        self.add(states=r.distinct, transitions=r.states)
        self.cov.setdefault("tlc_runs", []).append(
            {"module": module, "generated": r.states, "distinct": r.distinct, "depth": r.depth, "wall_s": round(r.wall, 2)})
        return r

    def parallel(self, fn, items, procs=8):
        """fn over the items in forked worker processes (fn and its results must be picklable or module level)."""
        import concurrent.futures as cf
        import multiprocessing as mp

        items = list(items)
        if len(items) < 4:
            return [fn(x) for x in items]
        global _deadline
        now = time.time()
        _deadline = (fn, max(self.t0 + BUDGET, now + 40) if self.quick else now + 10 * 24 * 3600)
        with cf.ProcessPoolExecutor(procs, mp_context=mp.get_context("fork"), initializer=_small) as ex:
            out = list(ex.map(_timed, items, chunksize=max(1, min(20, len(items) // (4 * procs)))))
        skipped = sum(1 for x in out if x is None)
        if skipped:
            self.cov["skipped_for_time"] = self.cov.get("skipped_for_time", 0) + skipped
        return [x for x in out if x is not None]

    def late(self, skipping=1):
        """On a slow machine the quick tier stops exploring in time (what is skipped is counted in the evidence)."""
        if self.quick and time.time() - self.t0 > BUDGET:
            self.cov["skipped_for_time"] = self.cov.get("skipped_for_time", 0) + skipping
            return True
        return False

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def write_evidence(self):
        d = EVID
        if self.cov.get("skipped_for_time"):
            self.cov["exhaustive"] = False
        d.mkdir(exist_ok=True)
        rec = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
               "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
               "violations": len(self.violations)}
        (d / f"{self.prop}.json").write_text(json.dumps(rec, indent=1, default=str))


_deadline = (None, 0)


def _timed(x):
    fn, end = _deadline
    return None if time.time() > end else fn(x)


def _small():
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))


@contextlib.contextmanager
def watchdog(seconds, what=""):
    """Main thread only: raise HangError inside code that does not return in time."""
    def on(sig, frm):
        raise HangError(what)

    old = signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, seconds, 1.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_check(prop, tier, seed, scratch):
    import importlib

    ctx = Ctx(prop, tier, seed, scratch)
    EVID.mkdir(exist_ok=True, parents=True)
    for old in (EVID / "replays").glob(f"{prop}-*.json"):
        old.unlink()
    ctx.phase("code:import expression")
    if prop in SCHEDULED:
        from . import coop

        coop.install()
    try:
        import expression

        where = Path(expression.__file__).resolve()
        if REPO.resolve() not in where.parents:
            print(f"error: expression was imported from {where}", file=sys.stderr)
            return 2
        # import everything once so that a broken tree is noticed here
        import expression.collections
        import expression.effect
        import expression.extra.parser
        import expression.system  # noqa: F401
    except Exception as e:  # noqa: BLE001
        with contextlib.suppress(Stop):
            ctx.violation("the package cannot be imported", repr(e))
        ctx.cov["samples"].append("import failed")
        ctx.write_evidence()
        return 1
    ctx.phase("start")
    mod = importlib.import_module(f"checks.{prop.lower()}")
    try:
        mod.check(ctx)
    except Stop:
        pass
    except HangError as e:
        with contextlib.suppress(Stop):
            ctx.violation("code under test does not terminate", str(e))
    except Exception as e:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        from .tlc import TlcError

        phase = ctx.phase_file.read_text() if ctx.phase_file.exists() else ""
        if isinstance(e, TlcError):
            # a recorded value outside the domain of the specification makes its evaluation fail
            if not (phase.endswith("Trace") and "Attempted to" in str(e) + "" or "was not in the domain" in str(e)):
                ctx.write_evidence()
                return 2
            what = "the recorded behaviour is outside the domain of the specification"
        elif phase.startswith("code:"):
            what = "the code under test failed in a way the driver does not expect"
        else:
            ctx.write_evidence()
            return 2
        with contextlib.suppress(Stop):
            ctx.violation(what, {"phase": phase, "error": repr(e)[:2000]})
    ctx.write_evidence()
    return 1 if ctx.violations else 0
