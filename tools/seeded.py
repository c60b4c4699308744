#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json
({id: which check and situation reported it})."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json"))
rows = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    if i not in caught:
        continue
    m = json.load(open(f))
    rows.append("| " + " | ".join(str(c).replace("|", "/").replace("\n", " ") for c in
                                  (f"`{i}`", m["property"], m["what_it_breaks"], m["needs"], caught[i])) + " |")
p = V + "/DESIGN.md"
s = open(p).read()
block = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
s = s.replace("@TABLE@", "<!-- seeded --><!-- /seeded -->")
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: block, s, flags=re.S)
open(p, "w").write(s)
print(len(rows) - 2, "planted bugs")
