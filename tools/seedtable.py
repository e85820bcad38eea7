"""Print the table of planted bugs for DESIGN.md."""

import json
from pathlib import Path

root = Path(__file__).parent.parent
rows = []
for d in (root / "seeded").iterdir():
    m = json.loads((d / "meta.json").read_text())
    rows.append((m["property"], d.name, m["what_it_breaks"].split(". ")[0], m["needs"].split(". ")[0]))
print("| planted bug | caught by | what it breaks | what it needs |\n|---|---|---|---|")
for p, n, b, w in sorted(rows):
    print(f"| {n} | {p} | {b.rstrip('.')} | {w.rstrip('.')} |")
