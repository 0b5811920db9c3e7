#!/bin/bash
# check.sh PROPERTY [dldsim options]: builds the simulator and dld from /repo's current tree, then
# searches for a violation of the property.  VERIF_SEED and VERIF_TIER choose the seed and depth.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 3
export RUST_BACKTRACE=0
prop=$1
shift
./build.sh >&2 || { echo "check.sh: the build failed" >&2; exit 3; }
exec build/sim/release/dldsim check --property "$prop" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" --out "$here" "$@"
