#!/bin/bash
# trybugs.sh [ID...]: apply each seeded change to /repo, run the check of its property, undo it
cd /verif
for i in ${@:-$(ls seeded)}; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || continue
  timeout 900 ./check.py $P > /tmp/try_$i.log 2>&1; R=$?
  git -C /repo checkout -- .
  echo "$i $P exit $R $(grep -c ^VIOLATION /tmp/try_$i.log) $(grep ^VIOLATION /tmp/try_$i.log | head -1 | cut -c1-150) $(tail -1 /tmp/try_$i.log | cut -c1-120)"
done
