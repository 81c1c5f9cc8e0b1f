#!/bin/sh
# tools/silence.sh TIER SEEDS PROPS: runs checks on the current tree, one line each.
cd "$(dirname "$0")/.." || exit 2
for s in $2; do for p in $3; do
  t=$(date +%s)
  VERIF_SEED=$s VERIF_TIER=$1 bin/check $p > work/silence.$p.out 2> work/silence.$p.err
  echo "$1 seed=$s $p rc=$? $(($(date +%s)-t))s $(grep -v KNOWN work/silence.$p.out | tail -1 | cut -c1-300)"
done; done
