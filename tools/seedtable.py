#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and /tmp/seedres (kept in tools/seedres.json)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
store = V + "/tools/seedres.json"
res = json.load(open(store)) if os.path.exists(store) else {}
for b in sorted(os.listdir(V + "/seeded")):
    f = "/tmp/seedres/%s.txt" % b
    p = json.load(open(V + "/seeded/%s/meta.json" % b))["property"]
    if os.path.exists(f):
        t = open(f).read()
        m = re.search(r"^VIOLATION property=%s replay=(\S+)" % p, t, re.M)
        res[b] = "caught" if m else "missed"
res = {b: r for b, r in res.items() if os.path.isdir(V + "/seeded/" + b)}
json.dump(res, open(store, "w"), indent=0, sort_keys=True)
rows = ["| change | property | breaks | needs | quick check |", "|---|---|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % b))
    rows.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), res.get(b, "?")))
d = open(V + "/DESIGN.md").read()
head = d.split("<!-- table -->")[0].replace("SEEDTABLE", "").rstrip()
open(V + "/DESIGN.md", "w").write(head + "\n\n<!-- table -->\n" + "\n".join(rows) + "\n")
print(len(rows) - 2, [b for b in res if res[b] != "caught"])
