"""Writes MANIFEST.json from the registry."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mon import registry
checks = []
for p in sorted(registry.MODULES):
    t, level, note = registry.CLAIMS[p]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p,
                   "thorough_cmd": "python3 check.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                   "technique": t, "level": level, "level_note": note})
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": registry.NOT_APPLICABLE.get(p, "check not built yet")} for p in props if p not in registry.MODULES]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks were needed in /repo: every event the monitors judge is observable at a public function, the process boundary, the file system or the network. replay: python3 check.py replay FILE"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
