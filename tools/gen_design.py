#!/usr/bin/env python3
"""Insert the table of planted bugs (from seeded/*/meta.json) into DESIGN.md between its markers."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first_missed = set(open(os.path.join(root, "tools/first_missed.txt")).read().split())
rows = ["| seed | property | what it breaks | needs | |", "|---|---|---|---|---|"]
d = os.path.join(root, "seeded")
for s in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, s, "meta.json")))
    cl = lambda t: re.sub(r"\s+", " ", t if isinstance(t, str) else "; ".join(t)).replace("|", "\\|")
    rows.append("| %s | %s | %s | %s | caught%s |" % (s, m["property"], cl(m["what_it_breaks"]), cl(m["needs"]),
                " (missed at first; check strengthened)" if s in first_missed else ""))
p = os.path.join(root, "DESIGN.md")
t = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
i, j = t.index(a) + len(a), t.index(b)
open(p, "w").write(t[:i] + "\n".join(rows) + "\n" + t[j:])
