"""Regenerate the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- planted bugs: begin -->", "| planted bug | caught by the check of | what it needs |", "|---|---|---|"]
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, i)))
    rows.append("| %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/")))
rows.append("<!-- planted bugs: end -->")
t = open(H + "/DESIGN.md").read()
if "SEEDED_TABLE" in t:
    t = t.replace("SEEDED_TABLE", "\n".join(rows))
else:
    a, b = t.index(rows[0]), t.index(rows[-1]) + len(rows[-1])
    t = t[:a] + "\n".join(rows) + t[b:]
open(H + "/DESIGN.md", "w").write(t)
