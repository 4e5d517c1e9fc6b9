#!/bin/bash
# check.sh PROPERTY quick|thorough
# Builds the simulator from /repo's current tree, then searches. Exit 0: held, 1: violation, other: no answer.
D="$(cd "$(dirname "$0")" && pwd)"
"$D/build_sim.sh" >/tmp/hrsim-build.$$.log 2>&1 || { cat /tmp/hrsim-build.$$.log >&2; rm -f /tmp/hrsim-build.$$.log; exit 2; }
rm -f /tmp/hrsim-build.$$.log
HRSIM_ROOT="$D" exec "${HRSIM_TARGET:-$D/sim/target}/debug/hrsim" check "$1" "${2:-quick}"
