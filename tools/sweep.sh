#!/bin/bash
# sweep.sh "IDS" "SEEDS" [tier]: run checks over seeds, one line each
for p in $1; do for s in $2; do
 out=$(/opt/venv/bin/python /verif/check.py $p --seed $s --tier ${3:-quick} 2>&1); rc=$?
 echo "$p seed=$s rc=$rc $(echo "$out" | grep -v KNOWN | grep "^$p:\|^C" | head -1 | cut -c1-160)"
 [ $rc -ne 0 ] && echo "$out" | grep -v KNOWN | head -${LINES_:-6} | cut -c1-300
done; done
