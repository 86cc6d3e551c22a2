#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = {"c02-sha1-evp-split": "first missed: C01-C05 now also decide messages of any size",
         "c13-sha256-static": "first found but not reproduced natively: the replay now runs the library with its static data write-protected",
         "c14-rotate-distance": "missed until arguments were given as expressions",
         "c25-print-status": "first missed: the property did not name closing; it does now"}
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
out = "| seed | needs | caught by |\n|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    out += "| %s | %s | %s%s |\n" % (d, m["needs"], m["property"], " (%s)" % notes[d] if d in notes else "")
open(p, "w").write(s[:s.index("| seed | needs | caught by |")] + out)
