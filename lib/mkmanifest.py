"""writes MANIFEST.json from what profiles.py claims"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import profiles
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in profiles.P:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "technique": profiles.TECH.get(i, "TLA+ specification checked with TLC; recorded executions of the real library validated against it by TLC"),
                       "level": profiles.LEVEL.get(i, "model_checking"), "level_note": profiles.note(i)})
    else:
        na.append({"property": i, "reason": profiles.NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash lib/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ (TLC). See DESIGN.md."}
if profiles.HOOKS:
    m["hooks"] = profiles.HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
