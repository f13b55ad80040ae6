#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]
# Builds the model checker against /repo's current working tree and runs one property.
set -u
cd "$(dirname "$0")" || exit 2
ID=${1:?property id}
TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
. tools/build.sh || exit 2
MC_BIN=target/release/mc
[ "$ID" != C19 ] || traced_build
[ "$ID" != C24 ] || inner_build
if [ "$ID" = C28 ]; then
  leak_build || exit 2
  if [ "$TIER" = thorough ]; then machine_build O3,3,off Os,s,off O1,1,off O2,2,off Oz,z,off O3lto,3,true O2lto,2,true Oslto,s,true; else machine_build O3,3,off Os,s,off; fi
fi
MC_SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/mc-scratch.XXXXXX") || exit 2
export MC_SCRATCH
trap 'rm -rf -- "$MC_SCRATCH"' EXIT
"$MC_BIN" check "$ID" "$TIER"
