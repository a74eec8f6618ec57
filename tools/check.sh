#!/bin/bash
# tools/check.sh ID [quick|thorough]: rebuilds from /repo's working tree and decides one property.
here="$(cd "$(dirname "$0")/.." && pwd)"
probe=; [ "$1" = D06 ] && probe=probe
"$here/tools/build.sh" $probe || exit 2
tier="${2:-${VERIF_TIER:-quick}}"
exec "$here/.build/dst/release/dst" check "$1" --tier "$tier" --seed "${VERIF_SEED:-1}"
