#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from harness/spec.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/harness")
from spec import SPEC
NA = {}
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 harness/build.py hw sw asan asansw",
     "checks": [], "not_applicable": []}
for p in props:
    if p in SPEC:
        s = SPEC[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p,
            "thorough_cmd": "python3 check.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
            "technique": s["technique"], "level": s.get("level", "exploration"), "level_note": s["level_note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
m["notes"] = "No hooks are needed in /repo: instrumentation is applied at compile and link time to copies of its sources."
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); open(H + "/MANIFEST.json", "a").write("\n")
