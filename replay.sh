#!/bin/bash
# replay.sh FILE: rebuilds and reruns a recorded failing case, with its schedule and faults
bash /verif/build.sh || exit 2
exec /verif/sim/target/debug/simtl replay "$1"
