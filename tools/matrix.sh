#!/bin/bash
# Development aid: applies each planted bug to /repo in turn and runs checks against it.
# usage: matrix.sh own|all [id...]   ("own": the check of the bug's property only)
cd /verif
mode=$1; shift
ids=${*:-$(ls seeded)}
for b in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
  [ $mode = own ] && list=$p || list=$(seq -f 'C%02g' 1 ${NPROPS:-21})
  line="$b ($p):"
  for c in $list; do
    t=$(date +%s)
    timeout 900 bash run.sh $c quick > /tmp/matrix.$c.log 2>&1; rc=$?
    grep -q "^VIOLATION property=$c " /tmp/matrix.$c.log && v="caught" || v="-"
    [ $mode = own ] && line="$line $c rc=$rc $v $(( $(date +%s) - t ))s" || { [ $rc = 1 ] && line="$line $c"; [ $rc -gt 1 ] && line="$line $c(rc$rc)"; }
  done
  git -C /repo checkout -q -- .
  echo "$line"
done
