#!/usr/bin/env python3
"""tools/design.md -> DESIGN.md, with the table of seeded bugs."""
import os, json
r = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); rows = []
for d in sorted(os.listdir(r + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (r, d))); rows.append("| %s | %s | %s | %s |" % (m["property"], d, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
rows.sort()
s = open(r + "/tools/design.md").read().replace("SEEDED_N", str(len(rows))).replace("SEEDED_TABLE", "| caught by | change | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows))
open(r + "/DESIGN.md", "w").write(s)
