#!/opt/venv/bin/python
"""Write MANIFEST.json from the checks present in harness/checks (run after adding one)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "harness/checks", pid.lower() + ".py")):
        c = importlib.import_module("harness.checks." + pid.lower()).CHECK
        checks.append({"property": pid, "quick_cmd": "./run.py %s quick" % pid, "thorough_cmd": "./run.py %s thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": c.technique, "level": c.level, "level_note": c.level_note})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked and enumerated by TLC; conformance drivers in harness/. No hooks in /repo."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "unclaimed")
