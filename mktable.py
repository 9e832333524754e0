"""Rewrites the planted-change table in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))
rows = ["| change | property | caught by | needs |", "|---|---|---|---|"]
caught = {}
path = os.path.join(V, "caught.json")
if os.path.exists(path):
    caught = json.load(open(path))
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], caught.get(d, m["property"]), m["needs"].replace("|", "/")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeded table -->", "<!-- end of seeded table -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n" + "\n".join(rows) + "\n" + s[j:])
