#!/bin/bash
# Usage: check.sh <property> [quick|thorough]: decides one property on /repo's current source.
cd "$(dirname "$0")" || exit 2
[ -n "$2" ] && export VERIF_TIER="$2"
./build.sh || exit 2
exec ./bin/symgo -verif "$PWD" ${SYMGO_REPO:+-repo "$SYMGO_REPO"} check "$1"
