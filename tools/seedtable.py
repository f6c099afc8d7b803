"""Rewrite the table of planted bugs in DESIGN.md (after the mark)."""
import json
import os
from pathlib import Path
root = Path(__file__).resolve().parent.parent
mark = "| planted bug | property | needs | caught by |\n"
d = root / "DESIGN.md"
t = d.read_text().replace("SEEDED_TABLE", mark)
rows = [mark, "|---|---|---|---|\n"]
first = {"long-row-suffix": "generator widened", "shared-hdulist":
         "histories that change arrays in place added", "ten-duplicates":
         "more repeats generated", "upper-case-gz": "suffix case generated"}
try:
    first |= json.loads((root / "tools/bugs/first.json").read_text())
except FileNotFoundError:
    pass
for x in sorted(os.listdir(root / "seeded")):
    m = json.loads((root / "seeded" / x / "meta.json").read_text())
    c = m["property"] + " quick"
    if x in first:
        c += f" (missed at first: {first[x]})"
    rows.append(f"| {x} | {m['property']} | {m['needs']} | {c} |\n")
d.write_text(t.split(mark)[0] + "".join(rows))
