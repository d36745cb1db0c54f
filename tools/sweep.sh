#!/bin/bash
# sweep.sh TIER SEEDS PROPS...: runs checks over several seeds and prints what they report
tier=$1; seeds=$2; shift 2
for p in "$@"; do for s in $seeds; do
  VERIF_SEED=$s VERIF_TIER=$tier timeout 900 python3 "$(dirname "$0")/../check.py" $p >/tmp/sweep-$p-$s.log 2>&1; rc=$?
  echo "$p seed $s rc $rc $(grep -E 'VIOLATION|: case' /tmp/sweep-$p-$s.log | head -3 | tr '\n' ';') $(tail -1 /tmp/sweep-$p-$s.log)"
done; done
