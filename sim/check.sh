#!/bin/bash
# check.sh <property> [quick|thorough]: builds against /repo and decides one property.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$(dirname "$HERE")"
"$HERE/build.sh" || { echo "check.sh: the build failed" >&2; exit 2; }
exec "$VERIF_DIR/target/debug/dst" check "$1" "${2:-${VERIF_TIER:-quick}}"
