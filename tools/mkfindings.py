#!/usr/bin/env python3
"""known_findings.json: the known entries below plus one 'fixed' line per fix commit (tools/fixes.txt: property commit what failed)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = json.load(open(os.path.join(H, "tools", "known.json")))
for l in open(os.path.join(H, "tools", "fixes.txt")):
    if l.strip():
        p, c, w = l.strip().split(" ", 2)
        out.append({"property": p, "status": "fixed", "commit": c, "line": "fixed: property=%s %s %s" % (p, c, w)})
with open(os.path.join(H, "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
