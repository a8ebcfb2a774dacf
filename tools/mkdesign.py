"""Fill the table of planted changes in DESIGN.md."""
import glob
import json
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (
        os.path.basename(os.path.dirname(f)), d["property"],
        d.get("caught_by", d["property"]),
        d["what_it_breaks"].replace("|", "/")))
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
h = "|---|---|---|---|\n"
i = s.index(h) + len(h)
j = s.index("\n## 5.")
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
