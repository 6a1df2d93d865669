"""Run TLC on a module of /verif/spec in a scratch directory."""
from __future__ import annotations

import json
import os
import re
import resource
import shutil
import subprocess
import time
from pathlib import Path

SPEC = Path(__file__).resolve().parent.parent / "spec"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    """The specification itself failed (machinery error or a spec property violated)."""


class TlcResult:
    def __init__(self):
        self.items = []  # decoded JSON values printed by the spec
        self.states = 0
        self.distinct = 0
        self.depth = 0
        self.wall = 0.0
        self.out = ""
        self.violated = None  # name of a violated invariant/property


def _unlimit():
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


_n = 0


def run(scratch: Path, module: str, cfg: str, *, files=None, workers=4, timeout=600, args=(), props=(), heap="4g",
        allow_violation=False, on_item=None) -> TlcResult:
    """Copies spec/ to a scratch dir, writes the cfg and files, runs TLC, collects printed JSON."""
    global _n
    _n += 1
    d = Path(scratch) / f"tlc{_n}-{module}"
    d.mkdir(parents=True)
    for f in SPEC.glob("*.tla"):
        shutil.copy(f, d)
    (d / f"{module}.cfg").write_text(cfg)
    for name, content in (files or {}).items():
        if isinstance(content, (str, bytes)):
            (d / name).write_text(content) if isinstance(content, str) else (d / name).write_bytes(content)
        else:
            with open(d / name, "w") as fh:
                for rec in content:
                    fh.write(json.dumps(rec))
                    fh.write("\n")
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", *props, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
           "-workers", str(workers), "-metadir", str(d / "meta"), *args, module]
    r = TlcResult()
    t0 = time.time()
    other = []
    p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=_unlimit)
    import threading

    timed_out = []

    def kill():
        timed_out.append(1)
        p.kill()

    timer = threading.Timer(timeout, kill)
    timer.start()
    try:
        for line in p.stdout:
            if line.startswith('"@'):
                it = json.loads(json.loads(line)[1:])
                if on_item:
                    on_item(it)
                else:
                    r.items.append(it)
            else:
                other.append(line)
        p.wait()
    finally:
        timer.cancel()
        if p.poll() is None:
            p.kill()
    r.wall = time.time() - t0
    r.out = "".join(other)
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out):
        pass
    if m is None:
        m2 = re.search(r"([\d,]+) states generated.*?\(([\d,]+) distinct", r.out)
        m = m2
    if m:
        r.states, r.distinct = int(m[1].replace(",", "")), int(m[2].replace(",", ""))
    m = re.search(r"depth of the complete state graph search is (\d+)", r.out)
    if m:
        r.depth = int(m[1])
    if timed_out:
        raise TlcError(f"TLC timed out after {timeout}s on {module}\n{r.out[-2000:]}")
    m = re.search(r"(?:Invariant|Action property|Temporal properties?|Property) ?(\w*) (?:is|was|were) violated", r.out)
    if m:
        r.violated = m[1] or "property"
    if p.returncode != 0 and not (allow_violation and r.violated):
        raise TlcError(f"TLC exit {p.returncode} on {module}\n{r.out[-4000:]}")
    if os.environ.get("VERIF_KEEP") is None:
        shutil.rmtree(d, ignore_errors=True)
    return r
