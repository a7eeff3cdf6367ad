#!/usr/bin/env python3
"""Write the table of planted bugs into DESIGN.md."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"]))
s = open(R + "/DESIGN.md").read()
a, b = s.index("<!-- bugs -->") + 13, s.index("<!-- /bugs -->")
open(R + "/DESIGN.md", "w").write(s[:a] + "\n" + "\n".join(rows) + "\n" + s[b:])
