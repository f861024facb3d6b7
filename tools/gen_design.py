"""Writes the table of planted bugs at the end of DESIGN.md (tools/detected.json holds the results)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
det = json.load(open(os.path.join(V, "tools", "detected.json")))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/"), det.get(b, "not run")))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
t = re.sub(r"(<!-- bugs -->\n).*?(\n<!-- /bugs -->)", lambda m: m.group(1) + "\n".join(rows) + m.group(2), t, flags=re.S)
open(p, "w").write(t)
