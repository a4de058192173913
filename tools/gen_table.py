"""Rewrite the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
head = s[:s.index("| bug | property |")]
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].rstrip("."), m.get("caught_by", m["property"])))
open(V + "/DESIGN.md", "w").write(head + "\n".join(rows) + "\n")
