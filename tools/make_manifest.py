#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from checks import CHECKS
try:
    from checks import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 -c 'import json; json.load(open(\"MANIFEST.json\"))'", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough", "evidence_file": f"evidence/{p}.json",
                            "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check yet: being built")})
m["notes"] = "Known findings and fixed defects: known_findings.txt. Each check builds its harness from /repo/src into /verif/build and runs it; see DESIGN.md."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
