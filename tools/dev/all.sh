#!/bin/bash
cd /verif; export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
[ $# = 0 ] && set -- $(seq -f 'C%02g' 1 28)
for p in "$@"; do s=$(date +%s.%N); /usr/bin/python3 -B harness/check.py $p > /tmp/out.$p 2>&1; rc=$?; printf "%s rc=%d %.1fs %s\n" $p $rc $(echo "$(date +%s.%N)-$s"|bc) "$(grep -E 'VIOLATION|FAILED' /tmp/out.$p|head -1)"; done
