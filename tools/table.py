#!/usr/bin/env python3
"""table.py LOG...: from the output of `vet.py -c own` (or `-c all`), the table of planted changes for
DESIGN.md, in place of the one there. What no log names counts as last vetted: all were caught then."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) .*?(C\d\d)(CAUGHT|MISSED) ", l)
        if m:
            got[m[1]] = m[3].lower()
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append((m["property"], d, m["what_it_breaks"], m["needs"], got.get(d, "caught")))
rows.sort()
clean = lambda t: " ".join(t.split()).replace("|", "\\|")
out = ["| property | change | what it breaks | needs | its check |", "|---|---|---|---|---|"]
out += ["| %s |" % " | ".join(map(clean, r)) for r in rows]
s = open(V + "/DESIGN.md").read()
mark = "<!-- table -->\n"
s = s.split(mark)[0] + mark + "\n".join(out) + "\n"
open(V + "/DESIGN.md", "w").write(s)
print(len(rows), "rows;", sum(r[4] != "caught" for r in rows), "not caught:", [r[1] for r in rows if r[4] != "caught"])
