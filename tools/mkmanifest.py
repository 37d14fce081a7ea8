#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, tools/claims.py and the machinery present."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from tools import claims
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    has = any(os.path.exists(os.path.join(H, d, p.lower() + ".py")) for d in ("rt", "contracts"))
    if p in claims.NA or not has:
        na.append(dict(property=p, reason=claims.NA.get(p, "check under construction")))
        continue
    checks.append(dict(property=p, quick_cmd="bin/check %s quick" % p, thorough_cmd="bin/check %s thorough" % p,
                       technique=claims.TECH.get(p, claims.TECH_DEFAULT), level=claims.LEVEL.get(p, "other"),
                       level_note=claims.NOTE.get(p, claims.NOTE_DEFAULT)))
m = dict(version=1, setup_cmd="python3-vt -m compileall -q tcv contracts rt tools", checks=checks, not_applicable=na)
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
