#!/usr/bin/env python3
"""DESIGN.md from design.head.md, the evidence of the last runs and the planted bugs."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(V + "/tools/design.head.md").read()
out += "The check of its own property catches each of these:\n\n| planted bug | property | needs | breaks |\n|---|---|---|---|\n"
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    f = lambda s: s.replace("|", "/").replace("\n", " ")
    out += f"| {d} | {m['property']} | {f(m['needs'])} | {f(m['what_it_breaks'])} |\n"
out += "\n## 8. Spaces (quick tier)\n\nThorough widens histories, bounds and ranges of the same spaces.\n\n| id | space | bounds | executions | steps |\n|---|---|---|---|---|\n"
tot = [0, 0]
for k in range(1, 27):
    i = "C%02d" % k
    e = json.load(open(f"{V}/evidence/{i}.json"))
    if e["tier"] != "quick":
        raise SystemExit(f"{i}: not a quick run")
    best = {}
    for s in e["coverage"]["spaces"]:
        b = best.setdefault(s["space"], [None, 0, 0])
        b[0] = s
        b[1] += s["executions"]
        b[2] += s["steps"]
    for name, (s, x, st) in best.items():
        b = []
        if s["bound"]: b.append(f"{s['bound']} {s['bound_on']}")
        if s["deviations"]: b.append(f"{s['deviations']} deviations")
        if s.get("suspensions"): b.append(f"{s['suspensions']} suspensions")
        out += f"| {i} | {name} | {', '.join(b) or 'all'} | {x} | {st} |\n"
        tot[0] += x
        tot[1] += st
out += f"\nTogether {tot[0]} executions and {tot[1]} steps, all spaces complete.\n"
open(V + "/DESIGN.md", "w").write(out)
