"""usage: mkbug.py ID PROPERTY < spec.json  -- spec: {edits: [[file, old, new], ...], demo: python source, needs, what_it_breaks}
Makes /verif/seeded/ID from /repo's HEAD using a scratch worktree, and runs the demo with and without the change."""
import json, os, subprocess, sys
ID, PROP, spec = sys.argv[1], sys.argv[2], sys.argv[3]
ns = {}
exec(open(spec).read(), ns)
s = ns["BUGS"][ID]
W = f"/tmp/w/{ID}"
subprocess.run(["rm", "-rf", W], check=True)
os.makedirs(W)
subprocess.run(f"git -C /repo archive HEAD | tar -x -C {W}", shell=True, check=True)
subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm b", shell=True, check=True, cwd=W)
out = f"/verif/seeded/{ID}"
os.makedirs(out, exist_ok=True)
open(f"{out}/demo.py", "w").write(s["demo"])
open(f"{out}/demo.sh", "w").write('#!/bin/bash\n# exit 0: behaves as promised; nonzero: broken\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(f"{out}/demo.sh", 0o755)
json.dump({"property": PROP, "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
env = dict(os.environ, PYTHONPATH=W)
r0 = subprocess.run(["bash", f"{out}/demo.sh"], cwd=W, env=env, capture_output=True, text=True)
for f, a, b in s["edits"]:
    p = f"{W}/{f}"
    t = open(p).read()
    assert t.count(a) == 1, (f, t.count(a), a)
    open(p, "w").write(t.replace(a, b))
d = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout
open(f"{out}/patch.diff", "w").write(d)
r1 = subprocess.run(["bash", f"{out}/demo.sh"], cwd=W, env=env, capture_output=True, text=True)
print(ID, "without:", r0.returncode, "with:", r1.returncode)
if r0.returncode != 0:
    print(r0.stdout[-1500:], r0.stderr[-1500:])
if r1.returncode == 0:
    print(r1.stdout[-1500:])
