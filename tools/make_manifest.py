"""Writes MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import plans
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    i = p["id"]
    if i not in plans.PLANS:
        missing.append({"property": i, "reason": "The check is still being built."})
        continue
    plan = plans.PLANS[i]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                   "evidence_file": f"evidence/{i}.json", "technique": plan.technique, "level": plan.level, "level_note": plan.note})
manifest = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": missing,
            "notes": "The specification is in spec/ (TLA+, checked with TLC). No hooks: everything is observed through the public API of "
                     "the crate by harness/, which is built against /repo's working tree."}
json.dump(manifest, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(missing), "not claimed")
