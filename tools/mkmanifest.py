"""Writes MANIFEST.json from the list of claimed checks (checks/cNN.py that exist)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        tech, note = NOTE[i]
        checks.append(dict(property=i, quick_cmd=f"./check {i} --tier quick", thorough_cmd=f"./check {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason="check still under construction"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import diffrax'", checks=checks, not_applicable=na),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
