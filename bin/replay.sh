#!/bin/bash
# replay.sh FILE : builds the simulator from /repo's current tree and runs a replay file.
FILE=$(realpath "$1") || exit 2
VERIF=$(cd "$(dirname "$0")/.." && pwd)
PROP=$(sed -n 's/^ "property": "\(.*\)",$/\1/p' "$FILE" | head -1)
. "$VERIF/bin/build.sh"
case $PROP in
C01|C02|C10) build_sim -race ;;
*) build_sim ;;
esac
"$BIN" replay -verif "$VERIF" -work "$WORK" -file "$FILE"
