#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (between markers): the planted bugs and the number of repairs."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    c = lambda s: " ".join(str(s).split()).replace("|", "/")
    rows.append("| `%s` | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], c(m["what_it_breaks"]), c(m["needs"])))
p = V + "/DESIGN.md"
s = open(p).read()
def put(s, name, text):
    return re.sub(r"(<!-- %s -->).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + text + m.group(2), s, flags=re.S)
s = put(s, "seeds", "\n" + "\n".join(rows) + "\n")
k = json.load(open(V + "/known_findings.json"))
s = put(s, "nfix", str(len({x.split()[2] if isinstance(x, str) else x["commit"] for x in k["fixed"]})))
s = put(s, "nseeds", str(len(rows) - 2))
open(p, "w").write(s)
