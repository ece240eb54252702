"""Writes /verif/MANIFEST.json from lib/registry.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import registry
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.MODULES:
        checks.append(dict(property=i, quick_cmd=f"./check {i} --tier quick", thorough_cmd=f"./check {i} --tier thorough",
                           technique=registry.TECHNIQUE.get(i, registry.DEFAULT), level="other",
                           level_note=registry.NOTE.get(i, registry.DEFAULT_NOTE), evidence_file=f"evidence/{i}.json"))
    else:
        na.append(dict(property=i, reason=registry.NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [n["property"] for n in na], "not applicable")
