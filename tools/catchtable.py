#!/usr/bin/env python3
"""DESIGN.md from tools/design.md and tools/results.txt (lines "ID PROPERTY rc=N ..." of trybugs.sh, later ones win)."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
res = {}
for l in open(here + "/results.txt"):
    m = re.match(r"(\S+) (C\d\d) rc=(\d+)", l)
    if m:
        res[m[1], m[2]] = int(m[3])
rows = ["| change | needs | breaks | caught by |", "|---|---|---|---|"]
ids = sorted(os.listdir(root + "/seeded"), key=lambda i: (json.load(open("%s/seeded/%s/meta.json" % (root, i)))["property"], i))
caught = 0
for i in ids:
    m = json.load(open("%s/seeded/%s/meta.json" % (root, i)))
    by = sorted(p for (j, p), rc in res.items() if j == i and rc == 1)
    caught += m["property"] in by
    cell = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (i, cell(m["needs"]), cell(m["what_it_breaks"]), ", ".join(by) or ("missed (%s)" % m["property"] if (i, m["property"]) in res else "not run (%s)" % m["property"])))
rows.append("\n%d of %d are caught by the check of their own property." % (caught, len(ids)))
open(root + "/DESIGN.md", "w").write(open(here + "/design.md").read().replace("@TABLE@", "\n".join(rows)))
print(rows[-1])
