#!/bin/bash
# check.sh <ID> [quick|thorough]: builds the harness from /repo's working tree and runs one check.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: no answer.
set -u
cd "$(dirname "$0")" || exit 2
root=$PWD
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
. ./build.sh || exit 2
exec "$BIN" run "$1" --tier "$tier" --seed "$seed" --root "$root"
