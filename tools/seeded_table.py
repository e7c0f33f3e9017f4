"""Prints the table of seeded bugs for DESIGN.md from the meta files and the lines of tools/caught.txt."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = dict(l.rstrip("\n").split(" ", 1) for l in open(os.path.join(here, "tools", "caught.txt")) if l.strip())
print("| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
for b in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", b, "meta.json")))
    print("| %s | %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"], m["needs"], caught.get(b, "")))
