#!/bin/bash
# bin/check.sh ID [quick|thorough]: rebuild from /repo's working tree, then decide property ID.
here="$(cd "$(dirname "$0")/.." && pwd)"
"$here/bin/build.sh" || exit 2
[ -n "${2:-}" ] && export VERIF_TIER="$2"
cd "$here" || exit 2
exec "${DSIM_TARGET:-$here/target}/debug/dsim" check "$1"
