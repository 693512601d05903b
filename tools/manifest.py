"""writes /verif/MANIFEST.json from properties.jsonl and the contracts that exist"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    try:
        m = importlib.import_module("contracts." + pid.lower())
    except ModuleNotFoundError:
        na.append({"property": pid, "reason": "its contracts are not finished yet"})
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"python3-vt check.py {pid}",
        "thorough_cmd": f"python3-vt check.py {pid} --tier thorough",
        "technique": "contract-based deductive verification of the source in /repo (pyvc: symbolic execution of the real functions against contracts and loop invariants, obligations discharged by z3/cvc5); counterexamples and the bounded stand-in by running the real code",
        "level": "proof",
        "level_note": m.NOTE,
    })
out = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
