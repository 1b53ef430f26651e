#!/bin/bash
# sweep.sh "C01 C02" "1 2 3" [tier] : run checks over several seeds, print only what is not held
cd "$(dirname "$(readlink -f "$0")")"
for p in $1; do for s in $2; do
  out=$(./check $p --seed $s --tier ${3:-quick} --no-evidence 2>&1); rc=$?
  [ $rc -eq 0 ] && echo "$out" | tail -1 | sed "s/^/seed $s: /" || { echo "=== $p seed $s rc=$rc"; echo "$out"; }
done; done
