"""Appends the table of planted bugs to DESIGN.md (kept between its markers)."""
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(p))
    rows.append((m["property"], os.path.basename(os.path.dirname(p)), m["needs"], m["what_it_breaks"]))
rows.sort()
table = "| caught by | planted bug | needs | what it breaks |\n|---|---|---|---|\n" + "".join(
    f"| {a} | `{b}` | {c} | {d} |\n" for a, b, c, d in rows)
path = os.path.join(here, "DESIGN.md")
text = open(path).read()
a, b = "<!-- planted -->\n", "<!-- end -->\n"
i, j = text.index(a) + len(a), text.index(b)
open(path, "w").write(text[:i] + table + text[j:])
