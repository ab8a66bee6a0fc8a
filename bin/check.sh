#!/bin/sh
# check.sh <property> [quick|thorough]: builds against /repo's current tree and checks the property.
here=$(cd "$(dirname "$0")/.." && pwd)
"$here/bin/build.sh" || exit 2
export FPSIM_DIR="$here"
exec "$here/target/fpsim" check "$1" "${2:-${VERIF_TIER:-quick}}"
