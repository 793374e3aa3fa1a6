#!/bin/bash
# bugcheck.sh ID... : run the property's quick check against /repo with the planted change applied, then undo it.
for id in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  s=$(date +%s); python3 /verif/check.py $p --tier quick > /tmp/bc-$id.log 2>&1; c=$?; git -C /repo checkout -- .
  echo "$id $p exit $c $(( $(date +%s)-s ))s $(grep -c ^VIOLATION /tmp/bc-$id.log) $(grep -m1 'violated' /tmp/bc-$id.log | cut -c1-160)"; done
