#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design_head.md, MANIFEST.json, the bounds the checks
report (evidence of the last quick and thorough run, cached in tools/bounds.json) and
tools/design_tail.md."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bp = os.path.join(here, "tools/bounds.json")
bounds = json.load(open(bp)) if os.path.exists(bp) else {}
for d in sys.argv[1:]:
    for f in sorted(os.listdir(d)):
        if f.endswith(".json"):
            e = json.load(open(os.path.join(d, f)))
            if e.get("violations"): continue
            bounds.setdefault(e["property"], {})[e["tier"]] = {"wall": round(e["wall_s"], 1), "ex": e["coverage"]["exhaustive"],
                "sc": [[s["scenario"], s["bounds"], s["executions"]] for s in e["coverage"]["scenarios"]], "rule": e["coverage"]["rule"], "as": e.get("assumptions", [])}
json.dump(bounds, open(bp, "w"), indent=0, ensure_ascii=False)
man = {c["property"]: c for c in json.load(open(os.path.join(here, "MANIFEST.json")))["checks"]}
out = open(os.path.join(here, "tools/design_head.md")).read() + "\n"
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    c, b = man[p["id"]], bounds.get(p["id"], {})
    q, t = b.get("quick"), b.get("thorough")
    out += "### %s %s\n\n" % (p["id"], p["title"])
    out += "*Method:* %s (level `%s`). %s\n\n" % (c["technique"], c["level"], c["level_note"])
    out += "*Beyond the tests:* %s\n\n" % p["why_tests_cant"]
    if q:
        out += "*Decision:* %s\n\n" % q["rule"]
        if q["as"]: out += "*Assumes:* " + "; ".join(q["as"]) + ".\n\n"
        cost = "%.0f s" % q["wall"] + (" (%.0f s%s)" % (t["wall"], "" if t["ex"] else ", deadline reached") if t else "")
        out += "*Cost:* %s. *Enumerated (quick):*\n\n" % cost
        for n, s, x in q["sc"]: out += "- %s: %s; %d executions\n" % (n, s, x)
        out += "\n"
out += open(os.path.join(here, "tools/design_tail.md")).read()
sd = os.path.join(here, "seeded")
missed = set(open(os.path.join(here, "tools/missed_first.txt")).read().split())
out += "| property | planted change | what it needs to show |\n|---|---|---|\n"
for d, m in sorted(((d, json.load(open(os.path.join(sd, d, "meta.json")))) for d in os.listdir(sd)), key=lambda x: (x[1]["property"], x[0])):
    out += "| %s | %s%s: %s | %s |\n" % (m["property"], d, " *" if d in missed else "", m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"))
open(os.path.join(here, "DESIGN.md"), "w").write(out)
