#!/usr/bin/env python3
# refresh the table of planted bugs in DESIGN.md: seedtable.py ; caught-by column comes from tools/caught.txt (written by seedcheck.sh)
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
caught = {}
f = root / "tools/caught.txt"
for l in f.read_text().splitlines() if f.exists() else []:
    i, _, c = l.partition(" ")
    caught[i] = c
rows = ["| id | property | what it breaks | needs | caught by (quick) |", "|---|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(d.name, '-')} |")
t = (root / "DESIGN.md").read_text()
new = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->\n"
if "<!-- seeded -->" in t:
    t = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->\n", lambda _: new, t, flags=re.S)
else:
    t = t.replace("SEEDED_TABLE\n", new)
(root / "DESIGN.md").write_text(t)
