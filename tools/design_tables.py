#!/usr/bin/python3
"""Rewrites the generated tables of DESIGN.md (defects fixed, planted bugs) from known_findings.json and seeded/*/meta.json."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def block(s, name, rows):
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    i, j = s.index(a), s.index(b)
    return s[:i] + a + "\n" + "\n".join(rows) + "\n" + s[j:]
s = open(V + "/DESIGN.md").read()
k = json.load(open(V + "/known_findings.json"))
rows = ["| property | commit | what failed |", "|---|---|---|"]
for x in sorted(k["fixed"], key=lambda x: x.split()[1]):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", x, re.S)
    rows.append("| %s | %s | %s |" % (m[1], m[2], m[3].replace("|", "\\|")))
s = block(s, "fixed", rows)
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], m["property"], str(m["needs"]).replace("|", "\\|").replace("\n", " ")))
s = block(s, "planted", rows)
open(V + "/DESIGN.md", "w").write(s)
