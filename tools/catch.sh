#!/bin/bash
# catch.sh ID...: which of the checks catch the planted bug (default: its own property; P="C01 C02" for others)
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id
  props=${P:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
  for p in $props; do
    s=$(date +%s); out=$(python3 check.py $p 2>&1); rc=$?
    echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -v '^seed\|^VIOL' | tail -1 | cut -c1-160)"
  done
  git -C /repo checkout -- .
done
