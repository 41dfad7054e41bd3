"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/missed_first.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(HERE, "tools", "missed_first.json")) as f:
    missed = json.load(f)
rows = ["", "<!-- planted bugs -->", "| change | property | needs | first result |", "|---|---|---|---|"]
for path in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    name = os.path.basename(os.path.dirname(path))
    with open(path) as f:
        meta = json.load(f)
    rows.append("| %s | %s | %s | %s |" % (name, meta["property"], meta["needs"], missed.get(name, "caught")))
with open(os.path.join(HERE, "DESIGN.md")) as f:
    text = f.read()
head = text.split("\n<!-- planted bugs -->")[0].rstrip("\n")
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write(head + "\n" + "\n".join(rows) + "\n")
