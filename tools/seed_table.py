"""Rewrites the table of seeded bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"]))
s = open(V + "/DESIGN.md").read()
i = s.index("| bug | property | needs |\n|---|---|---|\n") + len("| bug | property | needs |\n|---|---|---|\n")
j = s.index("\n\n", i)
open(V + "/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + s[j:])
