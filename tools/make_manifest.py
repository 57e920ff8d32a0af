#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(V + "/harness/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
 "P28": "The MATLAB-facing layer needs MATLAB's mex headers and runtime, which are not installed: it cannot be compiled or executed here, so no execution of it can be enumerated.",
}
out = dict(version=1, setup_cmd="python3 check.py setup",
  hooks=dict(guard="none", enable="no hooks are compiled into /repo: the checks build its unmodified sources", source_commits=[]),
  checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in checks and checks[i].get("claimed", True):
        c = checks[i]
        out["checks"].append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json", technique=c["technique"], level="model_checking",
            level_note=f"Bounds: {c['bound']} Oracle: {c['oracle']} Trusted: the reference model in harness/, the compiler and AddressSanitizer."))
    else:
        out["not_applicable"].append(dict(property=i, reason=NA.get(i, "No check has been built yet for this property; nothing is claimed.")))
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
