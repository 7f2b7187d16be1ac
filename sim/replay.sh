#!/bin/bash
# replay.sh <file>: re-executes a recorded violation.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$(dirname "$HERE")"
"$HERE/build.sh" || { echo "replay.sh: the build failed" >&2; exit 2; }
exec "$VERIF_DIR/target/debug/dst" replay "$1"
