#!/bin/bash
# usage: bugcheck.sh ID [CNN]  runs the property's quick check with the patched copy first on the path
ID=$1; P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
cd /verif; rm -rf /tmp/w/$ID; mkdir -p /tmp/w/$ID; git -C /repo archive HEAD | tar -x -C /tmp/w/$ID; (cd /tmp/w/$ID && git init -q . && git apply /verif/seeded/$ID/patch.diff) || exit 3
DV_REPO=/tmp/w/$ID PYTHONPATH=/tmp/w/$ID ./check $P --tier quick > /tmp/w/$ID.$P.out 2>&1; rc=$?
echo "$ID $P rc=$rc $(grep -c ^VIOLATION /tmp/w/$ID.$P.out) $(tail -1 /tmp/w/$ID.$P.out | cut -c1-200)"; grep -v ^VIOLATION /tmp/w/$ID.$P.out | head -${N:-3} | cut -c1-260
