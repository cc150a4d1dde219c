#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild from /repo's working tree, then search.
H=$(cd "$(dirname "$0")" && pwd)
P=$1
T=${2:-${VERIF_TIER:-quick}}
[ $# -gt 0 ] && shift
[ $# -gt 0 ] && shift
W=; S=sim
[ "$P" != C17 ] || { W=checked; S=ub; }
bash "$H/build.sh" $W || exit 2
export SPLRSIM_HOME=$H SPLRSIM_SHIM=$H/target/shim.so SPLRSIM_BIN=$H/target/bin/release
exec "$H/target/$S/release/splrsim" check "$P" --tier "$T" --seed "${VERIF_SEED:-1}" "$@"
