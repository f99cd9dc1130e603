#!/bin/bash
# sweep.sh "IDS" "SEEDS" tier : run checks over several seeds, print anything that is not quiet
for i in $1; do for s in $2; do
  o=$(cd "$(dirname "$0")/.." && ./check.py $i --tier ${3:-quick} --seed $s 2>&1); r=$?
  [ $r = 0 ] && ! grep -q VIOLATION <<<"$o" || { echo "== $i seed $s rc $r"; tail -12 <<<"$o" | cut -c1-1200; }
done; done; echo sweep done
