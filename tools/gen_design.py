#!/usr/bin/env python3
"""Writes DESIGN.md (see its first lines)."""
import json, os, re
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
rd = lambda p: open(os.path.join(V, p)).read()
props = {}
for l in rd("properties.jsonl").splitlines():
    p = json.loads(l); props[p["id"]] = p
out = rd("tools/design_head.md")
costs = json.load(open(os.path.join(T, "costs.json"))) if os.path.exists(os.path.join(T, "costs.json")) else {}
for i in props:
    try:
        e = json.loads(rd("evidence/%s.json" % i))
        if e["tier"] == "quick" and e["violations"] == 0: c = e["coverage"]; costs[i] = [c["states"], c["assertions"], c["queries"], round(e["wall_s"])]
    except OSError: pass
json.dump(costs, open(os.path.join(T, "costs.json"), "w"))
for l in rd("tools/design_props.txt").splitlines():
    i, how = l.split("|", 1)
    src = rd("harness/src/%s.rs" % i.lower())
    g = lambda k: "; ".join(re.findall(r"^//! %s: (.*)" % k, src, re.M))
    out += "### %s %s\n\n- How: %s.\n- Bounds: %s.\n" % (i, props[i]["title"], how, g("bounds"))
    if g("outside"): out += "- Outside: %s.\n" % g("outside")
    if g("assumes"): out += "- Assumes: %s.\n" % g("assumes")
    if i in costs: out += "- Cost (quick): %d paths, %d assertions, %d solver queries, %d s.\n" % tuple(costs[i])
    out += "- Tests: %s.\n\n" % props[i].get("why_tests_cant", "")
out += rd("tools/design_tail.md") + "| id | property | needs | caught by |\n|---|---|---|---|\n"
res = json.load(open(os.path.join(T, "caught.json"))) if os.path.exists(os.path.join(T, "caught.json")) else {}
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.loads(rd("seeded/%s/meta.json" % d))
    out += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"], res.get(d, "not run yet"))
out += "\n" + rd("tools/design_end.md")
open(os.path.join(V, "DESIGN.md"), "w").write(out)
