#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from a list 'id caught: Cxx B Cyy B ...' (output of a sweep of all checks
over all planted bugs) and the meta.json files."""
import json, os, re, sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for ln in open(sys.argv[1]):
    m = re.match(r"(\S+) (caught|MISSED)[: ]*(.*)", ln)
    if m:
        rows[m[1]] = re.findall(r"C\d\d", m[3])
out = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for sid in sorted(os.listdir(os.path.join(root, "seeded"))):
    meta = json.load(open(os.path.join(root, "seeded", sid, "meta.json")))
    what = meta["what_it_breaks"].split(". ")[0].strip().rstrip(".")
    if len(what) > 130:
        what = what[:127].rsplit(" ", 1)[0] + " ..."
    by = rows.get(sid)
    out.append("| %s | %s | %s | %s |" % (sid, meta["property"], what.replace("|", "/"), "?" if by is None else ", ".join(by) or "missed"))
d = open(os.path.join(root, "DESIGN.md")).read()
a, b = "<!-- matrix -->\n", "<!-- /matrix -->\n"
i, j = d.index(a) + len(a), d.index(b)
open(os.path.join(root, "DESIGN.md"), "w").write(d[:i] + "\n".join(out) + "\n" + d[j:])
