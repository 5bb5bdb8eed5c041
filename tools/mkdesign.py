"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Checks, besides that of the bug's own property, seen to report it, and what was strengthened.
NOTE = {}
for line in open(os.path.join(V, "tools", "planted.txt")):
    if line.strip() and not line.startswith("#"):
        k, v = line.rstrip("\n").split("\t")
        NOTE[k] = v
rows = []
for f in glob.glob(os.path.join(V, "seeded", "*", "meta.json")):
    with open(f) as fh:
        m = json.load(fh)
    i = os.path.basename(os.path.dirname(f))
    rows.append((m["property"], i, m["what_it_breaks"], NOTE.get(i, "")))
rows.sort()
p = os.path.join(V, "DESIGN.md")
with open(p) as f:
    s = f.read()
mark = "| caught by | bug |"
s = s.split(mark)[0].rstrip("\n") + "\n\n" + mark + " what it breaks | also caught by; strengthened |\n|---|---|---|---|\n"
for r in rows:
    s += "| %s | %s | %s | %s |\n" % r
with open(p, "w") as f:
    f.write(s)
