"""Write MANIFEST.json from properties.jsonl and the check modules present."""
import ast
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    path = os.path.join(H, "mc", "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": p["id"], "reason": "no check has been built for it yet"})
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash run.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": consts.get("TECHNIQUE", "explicit-state exploration of the implementation against a reference model"),
        "level": "model_checking",
        "level_note": consts["BOUNDS"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks are needed: checks import /repo's in-place build", "source_commits": []},
    "checks": checks, "not_applicable": na,
}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
