"""Rewrites the rules and bounds of the properties in DESIGN.md from rv/props (the paragraphs between them stay)."""
import json
import os
import re
import runpy

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
constants = runpy.run_path(os.path.join(HERE, "tools", "gen_manifest.py"))["constants"]
with open(os.path.join(HERE, "DESIGN.md")) as f:
    text = f.read()
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    c = constants(os.path.join(HERE, "rv", "props", p["id"].lower() + ".py"))
    rule = c["RULE"][0].upper() + c["RULE"][1:] + "."
    bounds = "Bounds: %d quick, %d thorough cases per run and seed" % (c["CASES"]["quick"], c["CASES"]["thorough"])
    bounds += "; assumes: " + "; ".join(c["ASSUMPTIONS"]) + "." if c.get("ASSUMPTIONS") else "."
    found = re.search(r"### %s .*?\n\n(.*?)\n\n(.*?)\n\n(Bounds: .*?)(?=\n\n)" % p["id"], text, re.S)
    middle = found.group(2) if found else "TODO"
    section = "### %s %s\n\n%s\n\n%s\n\n%s" % (p["id"], p["title"], rule, middle, bounds)
    if found:
        text = text[:found.start()] + section + text[found.end():]
    else:
        at = text.index("\nNo property is out of reach")
        text = text[:at] + "\n" + section + "\n" + text[at:]
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write(text)
