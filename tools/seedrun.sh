#!/bin/bash
# seedrun.sh ID[:PROP] ... : apply a planted bug to /repo, run the quick check of its property, undo
for x in "$@"; do
  id=${x%%:*}; prop=${x#*:}; [ "$prop" = "$x" ] && prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id no apply"; continue; }
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash /verif/check.sh $prop quick >/tmp/seedrun.$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $prop rc=$rc $(grep -c VIOLATION /tmp/seedrun.$id.log) violations $(( $(date +%s)-s ))s"
done
