"""writes the table of planted bugs into DESIGN.md (between the section-5 bullets and section 6)"""
import json, glob, os, re
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["needs"].replace("|", "/"), m.get("caught_by") or m["property"]))
t = open("DESIGN.md").read()
a = t.index("(a test of the analyser on expressions of ours, never on /repo).") + len("(a test of the analyser on expressions of ours, never on /repo).")
b = t.index("## 6. Limits")
open("DESIGN.md", "w").write(t[:a] + "\n\n" + "\n".join(rows) + "\n\n" + t[b:])
