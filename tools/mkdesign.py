"""Fills the generated sections of DESIGN.md (repaired defects, planted bugs)."""
import glob
import json
import os
import re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(root + "/DESIGN.md").read()
fixed = ["| property | commit | what failed |", "|---|---|---|"]
for x in open(root + "/KNOWN_FINDINGS.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", x)
    if m:
        fixed.append("| %s | %s | %s |" % m.groups())
seeded = ["| bug | property | needs | what it breaks | caught by |", "|---|---|---|---|---|"]
try:
    hits = json.load(open(root + "/tools/caught.json"))
except FileNotFoundError:
    hits = {}
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = f.split("/")[-2]
    seeded.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], hits.get(i, "?")))
for name, rows in (("FIXED", fixed), ("SEEDED", seeded)):
    s = re.sub(r"(<!--%s-->\n).*?(<!--/%s-->)" % (name, name), lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open(root + "/DESIGN.md", "w").write(s)
