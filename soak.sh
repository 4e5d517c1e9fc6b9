#!/bin/bash
# soak.sh P runs seed : one check with more runs, outside the registered commands
HRSIM_RUNS=${2:-2000} VERIF_SEED=${3:-1} HRSIM_SECS=${4:-120} HRSIM_ROOT=${HRSIM_ROOT:-/tmp/soak} exec /verif/sim/target/debug/hrsim check $1
