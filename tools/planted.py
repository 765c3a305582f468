#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = collections.defaultdict(list)
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = f.split("/")[-2]
    d[m["property"]].append((i[len(m["property"]) + 1:], m["needs"]))
rows = ["| check | catches (name: what it needs) |", "|----|----|"]
for k in sorted(d):
    rows.append("| %s | %s |" % (k, "; ".join("%s: %s" % x for x in d[k])))
rows.append("")
rows.append("%d in all." % sum(map(len, d.values())))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- planted -->"), s.index("<!-- end planted -->")
open(p, "w").write(s[:a] + "<!-- planted -->\n" + "\n".join(rows) + "\n" + s[b:])
