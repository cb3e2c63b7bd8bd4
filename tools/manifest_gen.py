#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks that `run.sh list` knows."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run(["./run.sh", "list"], cwd=here, capture_output=True, text=True, check=True).stdout
levels = dict(l.split()[:2] for l in out.splitlines() if l.strip())
exec(open(os.path.join(here, "tools", "notes.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./run.sh build",
     "checks": [{"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
                 "technique": NOTES[p][0], "level": levels[p], "level_note": NOTES[p][1]} for p in props if p in levels],
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in levels],
     "notes": "The real code, compiled against shims of std, tokio and hyper, is executed under an exhaustive explorer (mc/rt). See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
