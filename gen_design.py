"""Fills the tables of DESIGN.md from known_findings.txt and seeded/."""
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))
t = open(V + "/design/DESIGN.in.md").read()
fixed = ["| property | commit | what failed |", "|---|---|---|"]
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fixed.append("| %s | %s | %s |" % m.groups())
pl = ["| change | what it breaks | needs | caught by (quick) |", "|---|---|---|---|"]
for l in open(V + "/design/caught.txt"):
    i, by, *note = l.split(None, 2)
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    c = lambda s: s.replace("|", "/").strip()
    pl.append("| %s | %s | %s | %s |" % (i, c(m["what_it_breaks"]), c(m["needs"]), by + ("; " + note[0].strip() if note else "")))
t = t.replace("@FIXED@", "\n".join(fixed)).replace("@PLANTED@", "\n".join(pl))
open(V + "/DESIGN.md", "w").write(t)
