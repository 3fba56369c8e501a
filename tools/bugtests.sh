#!/bin/bash
# usage: bugtests.sh ID...   runs the stable tests on /tmp/w/ID (patched copy)
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu EQX_GETKEY_SEED=1
for ID in "$@"; do
cd /tmp/w/$ID || exit 1
IGN=(); for m in test_brownian test_sde1 test_sde2 test_underdamped_langevin test_detest test_interpolation test_solver; do IGN+=("--ignore=test/$m.py"); done
PYTHONPATH=/tmp/w/$ID timeout 840 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n ${NP:-8} --dist worksteal -m "not slow" --timeout=300 --tb=line -o junit_family=xunit2 --junitxml=/tmp/w/$ID.xml "${IGN[@]}" test > /tmp/w/$ID.log 2>&1
python3 /opt/vp/results.py /tmp/w/$ID.json junit:/tmp/w/$ID.xml >/dev/null
echo -n "$ID "; python3 /verif/tools/cmpbase.py /tmp/w/$ID.json
done
