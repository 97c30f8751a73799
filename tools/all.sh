#!/bin/bash
# all.sh N [ids] ; env SEED
cd /verif; ./check.sh build || exit 2
export VERIF_DIR=/verif VERIF_SEED=${SEED:-1} VERIF_RUNS=$1
for c in ${2:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15}; do
 s=$(date +%s); timeout 900 target/release/osusim check $c 2>&1 | tail -4; echo "== $c rc=${PIPESTATUS[0]} $(( $(date +%s)-s ))s"
done
