#!/usr/bin/env python3
"""Fill the generated parts of DESIGN.md: the sizes measured by the last runs (evidence/) and the table of planted bugs (seeded/)."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
missed = set(open(os.path.join(HERE, "tools/missed.txt")).read().split()) if os.path.exists(os.path.join(HERE, "tools/missed.txt")) else set()
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m, i = json.load(open(f, encoding="utf-8")), os.path.basename(os.path.dirname(f))
    cell = lambda s: " ".join(str(s).split()).replace("|", "\\|")
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], cell(m["needs"]), cell(m["what_it_breaks"]),
                                            "— (missed)" if i in missed else m["property"] + " quick"))
p = os.path.join(HERE, "DESIGN.md")
s = open(p, encoding="utf-8").read()
s = re.sub(r"(?s)(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), s)
open(p, "w", encoding="utf-8").write(s)
print(len(rows) - 2, "planted bugs")
