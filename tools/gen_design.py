"""Refreshes the generated blocks of DESIGN.md: planted bugs, repairs."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"c19-hpd-same-object"}
rows = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (i, d["what_it_breaks"].replace("|", "/"), str(d["needs"]).replace("|", "/"), "**missed**" if i in MISSED else d["property"]))
fixes = []
for l in open(os.path.join(HERE, "known_findings.jsonl")):
    d = json.loads(l)
    if d["status"] == "fixed":
        fixes.append("* %s `%s` %s" % (d["property"], d["commit"], d["what"]))
p = os.path.join(HERE, "DESIGN.md")
t = open(p).read()
for name, body in (("seeds", "\n".join(rows)), ("fixes", "\n".join(fixes))):
    a, b = "<!-- %s -->" % name, "<!-- end %s -->" % name
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + "\n" + body + "\n" + t[j:]
import re
for m in re.finditer(r"\* \*\*(C\d\d)\*\* \(([^)]*)\)", t):
    e = os.path.join(HERE, "evidence", m.group(1) + ".json")
    if not os.path.exists(e):
        continue
    d = json.load(open(e)); c = d["coverage"]
    n = "%d/%d" % (c["discharged"], c["obligations"])
    rest = re.sub(r"^\d+/\d+", "", m.group(2))
    t = t.replace(m.group(0), "* **%s** (%s%s)" % (m.group(1), n, rest))
open(p, "w").write(t)
