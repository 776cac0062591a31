#!/usr/bin/env python3
"""Fill the table of planted bugs in DESIGN.md."""
import glob, json, os, re
rows = ["| change | check | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    e = lambda s: s.replace("|", "\\|")
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {e(m['what_it_breaks'])} | {e(m['needs'])} |")
p = "/verif/DESIGN.md"
s = open(p).read()
s = re.sub(r"(?s)<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s)
open(p, "w").write(s)
