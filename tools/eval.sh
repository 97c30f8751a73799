#!/bin/bash
# eval.sh [-a] ids... : run the target check (or all with -a) against each planted bug
all=0; [ "$1" = -a ] && { all=1; shift; }
cd /verif
for b in ${@:-$(ls seeded)}; do
  d=/verif/seeded/$b; [ -d $d ] || d=/tmp/extra/$b
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$b APPLY FAILED"; continue; }
  ids=$p; [ $all = 1 ] && ids="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17"
  out="$b($p):"
  for c in $ids; do
    s=$(date +%s)
    VERIF_SEED=${SEED:-1} VERIF_TIER=quick VERIF_RUNS=$VERIF_RUNS ./check.sh $c quick > /tmp/plant/out.$b.$c 2>&1; rc=$?
    [ -z "$VERIF_RUNS" ] && :
    e=$(( $(date +%s)-s ))
    if [ $rc = 1 ]; then out="$out $c=CAUGHT(${e}s)"; elif [ $rc = 0 ]; then [ $all = 1 ] && out="$out $c=-" || out="$out $c=MISSED(${e}s)"; else out="$out $c=RC$rc"; fi
  done
  echo "$out"
  git -C /repo checkout -- .
done
