"""addfinding.py PROPERTY COMMIT TEXT : append a 'fixed' entry"""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
n = max(int(f["id"][1:]) for f in d["findings"]) + 1
d["findings"].append(dict(id=f"F{n:02d}", property=sys.argv[1], status="fixed", line=f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"))
json.dump(d, open(p, "w"), indent=1)
print(f"F{n:02d}")
