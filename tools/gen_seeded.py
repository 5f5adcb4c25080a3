#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/caught.txt
(lines `ID PROP rc=N | example`, as printed by the person who ran the checks)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(os.path.join(root, "tools/caught.txt")):
    m = re.match(r"(\S+) (P\d\d) rc=(\d)", l)
    if m:
        caught.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    f = os.path.join(root, "seeded", d, "meta.json")
    if os.path.exists(f):
        o = json.load(open(f))
        c = caught.get(d, {})
        yes = [p for p, r in sorted(c.items()) if r == "1"]
        no = [p for p, r in sorted(c.items()) if r == "0"]
        t = ", ".join(yes) or "none"
        if no:
            t += " (not %s)" % ", ".join(no)
        rows.append("| `%s` | %s | %s | %s |" % (d, o["what_it_breaks"].replace("|", "/"), o["needs"].replace("|", "/"), t))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeded -->", "<!-- /seeded -->"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "\n| change | breaks | needs | caught by (quick) |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + s[j:]
open(p, "w").write(s)
print(len(rows), "rows;", sum(1 for r in rows if "| none" in r), "not caught")
