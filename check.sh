#!/bin/bash
# check.sh ID [tier]: decides one property on /repo's current tree
cd /verif || exit 2
[ -x bin/gosym ] || bash build.sh || exit 2
exec bin/gosym check "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}"
