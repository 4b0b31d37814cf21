"""Writes properties.jsonl and MANIFEST.json from the tables in tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p.get("observe", []), "hook_needed": None}}
        f.write(json.dumps(q) + "\n")
checks = []
for p in PROPS:
    if p.get("claimed", os.path.exists(os.path.join(root, "checks", p["id"].lower() + ".py"))):
        checks.append({"property": p["id"], "quick_cmd": "sh checks/run.sh " + p["id"], "thorough_cmd": "sh checks/run.sh " + p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                       "level": p.get("level", "model_checking"), "level_note": p["note"]})
    elif p["id"] not in NOT_APPLICABLE:
        NOT_APPLICABLE[p["id"]] = "not claimed yet: its specification is still being written"
man = {"version": 1, "setup_cmd": "sh checks/setup.sh", "checks": checks,
       "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
