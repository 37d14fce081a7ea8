"""DESIGN.md from the hand-written parts, contracts/expected.json and the planted bugs"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = lambda *a: os.path.join(H, *a)
props = [json.loads(l) for l in open(P("properties.jsonl"))]
exp = json.load(open(P("contracts", "expected.json")))
import sys
sys.path.insert(0, H)
from tools import claims, design
out = [open(P("tools", "DESIGN.head.md")).read().rstrip(), "", "## 3. Property by property", "",
       "*Proved* lists the contracts all of whose obligations the verifier discharges from the current source, for all dimensions, entries,",
       "chain lengths and sites; *bounded* is what the run-time contracts add; *open* is what neither decides.", ""]
for p in props:
    i = p["id"]
    out.append("### %s %s" % (i, p["title"]))
    if i in claims.NA:
        out.append("Not applicable: %s." % claims.NA[i])
        out.append("")
        continue
    d = design.TEXT.get(i, {})
    e = exp.get(i, {})
    ok = sorted(k for k, v in e.items() if v == "proved")
    no = sorted(k for k, v in e.items() if v != "proved")
    s = "**Proved** (%d contracts)" % len(ok)
    out.append("%s: %s %s" % (s, d.get("proved", ""), ("`" + "`, `".join(ok) + "`.") if ok else "none – " + d.get("why", "see section 2.")))
    if no:
        out.append("Contracts not discharged (run-time only): `%s`." % "`, `".join(no))
    out.append("**Bounded**: %s" % d.get("bounded", ""))
    if d.get("open"):
        out.append("**Open / trusted**: %s" % d["open"])
    out.append("")
out.append(open(P("tools", "DESIGN.tail.md")).read().rstrip())
out += ["", "## 6. Planted bugs and what catches them", "",
        "Each is in `seeded/<id>/` with its demonstration; all compile and pass the 36 stable tests.  `contract` = a proof obligation fails",
        "(with a run-time witness unless noted), `run time` = only the bounded contracts see it.", "",
        "| id | property | what it breaks | caught by |", "|---|---|---|---|"]
cr = json.load(open(P("tools", "caught.json"))) if os.path.exists(P("tools", "caught.json")) else {}
for n in sorted(os.listdir(P("seeded"))):
    m = json.load(open(P("seeded", n, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "/")[:140], cr.get(n, "?")))
out.append("")
open(P("DESIGN.md"), "w").write("\n".join(out))
