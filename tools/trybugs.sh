#!/bin/bash
# usage: tools/trybugs.sh [id ...]  -- run the owning quick check against planted bugs
cd /verif || exit 1
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  d=seeded/$id; [ -d "$d" ] || continue
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply /verif/$d/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(VERIF_SEED=1 /opt/venv/bin/python -m regmon $prop --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ]; then echo "$id $prop CAUGHT: $(echo "$out" | grep -m1 'oracle=')"; else echo "$id $prop MISSED rc=$rc"; echo "$out" | tail -2; fi
done
git -C /repo status --short
