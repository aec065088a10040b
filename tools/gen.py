#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property texts and the check registry."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props_a, props_b
from registry import CHECKS
from na_reasons import NA
seen = {}
for p in props_a.PROPS + getattr(props_b, "PROPS", []):
    seen[p["id"]] = p
props = [seen[k] for k in sorted(seen)]
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if c:
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": c["technique"], "level": "model_checking", "level_note": c["note"]})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "No check yet.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none", "enable": "No hooks: the checks compile the unmodified sources of /repo and interpose at link time.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds the code under test from /repo's working tree into /verif/build/<id> and explores it exhaustively within the bounds written in its evidence file."}
with open(ROOT + "/MANIFEST.json", "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
if "--design" in sys.argv:
    import design
    design.main()
