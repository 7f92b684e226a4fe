"""Print the planted-bug table of DESIGN.md from seeded/*/meta.json, and put it there with --write."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
missed = set(sys.argv[sys.argv.index("--missed") + 1].split(",")) if "--missed" in sys.argv else set()
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], "missed" if d in missed else m["property"] + " quick"))
t = "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->"
if "--write" in sys.argv:
    p = os.path.join(V, "DESIGN.md")
    s = open(p).read()
    if "PLANTED_TABLE" in s:
        s = s.replace("PLANTED_TABLE", t)
    else:
        a, b = s.index("<!-- bugs -->"), s.index("<!-- /bugs -->") + len("<!-- /bugs -->")
        s = s[:a] + t + s[b:]
    open(p, "w").write(s)
else:
    print(t)
