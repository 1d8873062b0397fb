#!/bin/bash
# q.sh <checks...>: run quick checks with short output
cd /verif
for i in "$@"; do
    VERIF_TIER=${TIER:-quick} ./check.sh $i >/tmp/q.out 2>&1; rc=$?
    if [ $rc = 2 ]; then grep -A9 '^error' /tmp/q.out | head -${LINES_:-40}; exit 2; fi
    tail -4 /tmp/q.out | cut -c1-900
done
