"""Write the table of planted bugs in DESIGN.md: python3 tools/seedtable.py [RESULTS]

RESULTS: a file with lines "<id> <property> rc=<n> ..." (the last line about an id counts); kept in tools/seeded_results.txt.
"""
import json, re, sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
res = {}
store = ROOT / "tools/seeded_results.txt"
for f in [store, *map(Path, sys.argv[1:])]:
    if f.exists():
        for l in f.read_text().splitlines():
            m = re.match(r"(\S+) (C\d+) rc=(\d+)", l)
            if m:
                res[m[1]] = m[0]
ids = sorted(d.name for d in (ROOT / "seeded").iterdir())
store.write_text("".join(res[i] + "\n" for i in ids if i in res))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for i in ids:
    m = json.loads((ROOT / "seeded" / i / "meta.json").read_text())
    r = res.get(i, "")
    caught = r.split()[1] if r.endswith("rc=1") else "missed" if r.endswith("rc=0") else "not run"
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {caught} |")
p = ROOT / "DESIGN.md"
s = p.read_text()
begin, end = "<!-- seeded begin -->", "<!-- seeded end -->"
body = f"{begin}\n" + "\n".join(rows) + f"\n{end}"
if begin in s:
    s = re.sub(re.escape(begin) + ".*?" + re.escape(end), lambda _: body, s, flags=re.S)
else:
    s = s.replace("## What limits the evidence", f"## Planted bugs\n\nEach was run against the quick check of its property (`/verif/seeded/<bug>`).\n\n{body}\n\n## What limits the evidence")
p.write_text(s)
print(sum("rc=1" in v for v in res.values()), "caught of", len(ids))
