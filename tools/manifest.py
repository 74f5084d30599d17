#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
SCHED = {"C03", "C06", "C07", "C33"}
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
NOTES = json.load(open(os.path.join(V, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".cpp")):
        checks.append({
            "property": i,
            "quick_cmd": "python3 mc/run.py %s --tier quick" % i,
            "thorough_cmd": "python3 mc/run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": ("stateless model checking of the real code under a controlled thread scheduler (preemption-bounded exhaustive schedules, happens-before race detection)"
                          if i in SCHED else
                          "bounded exhaustive (stateless) model checking of the real code in lockstep with a reference model"),
            "level": "model_checking",
            "level_note": NOTES.get(i, NOTES["default"]),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built yet")})
m = {"version": 1, "setup_cmd": "sh tools/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources as they are", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Findings are in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
