#!/bin/bash
# seedrun.sh [ID..]: applies each planted change to /repo, runs its property's quick check, undoes it
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  python3 check.py $p quick > /tmp/seed_$id.log 2>&1; r=$?
  git -C /repo checkout -- .
  echo "$id $p exit $r $(( $(date +%s)-s ))s: $(grep -E '^  h_|CHECK-ERROR|error' /tmp/seed_$id.log | head -1 | cut -c1-150)"
done
