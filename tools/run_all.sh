#!/bin/bash
# run every quick check on /repo as it is, one after another
cd "$(dirname "$0")/.." || exit 3
bad=0
for i in $(seq -w 1 23); do
  s=$(date +%s)
  o=$(python3 check.py C$i --tier "${1:-quick}" 2>&1); rc=$?
  echo "C$i rc=$rc $(( $(date +%s) - s )) s"
  [ $rc = 0 ] || { bad=1; echo "$o" | tail -15; }
done
exit $bad
