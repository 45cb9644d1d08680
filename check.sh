#!/bin/bash
# check.sh PROPERTY [SECONDS]: exit 0 held, 1 violated (VIOLATION line), anything else an error of the check
prop=$1
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
secs=$2
if [ -z "$secs" ]; then
  if [ "$tier" = thorough ]; then secs=600; else secs=75; fi
fi
bash /verif/build.sh || exit 2
exec /verif/sim/target/debug/simtl check "$prop" "$tier" "$seed" "$secs"
