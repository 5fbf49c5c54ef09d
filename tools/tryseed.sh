#!/bin/bash
# tryseed.sh ID [tier]: applies seeded/ID to /repo, runs the check of its property, undoes it.
ID=$1; T=${2:-quick}; P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
timeout 900 /verif/run.sh check ${3:-$P} $T > /tmp/tryseed.log 2>&1; r=$?
grep -m1 VIOLATION /tmp/tryseed.log; echo "$ID $P exit $r"
