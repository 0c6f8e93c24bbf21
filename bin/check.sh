#!/bin/bash
# check.sh PROPERTY [extra driver flags] : builds the simulator from /repo's
# current tree and explores PROPERTY. Exit 0 held, 1 violation, 2 broken.
PROP=$1; shift
VERIF=$(cd "$(dirname "$0")/.." && pwd)
. "$VERIF/bin/build.sh"
case $PROP in
C01|C02|C10) build_sim -race ;;
*) build_sim ;;
esac
"$BIN" check -prop "$PROP" -verif "$VERIF" -work "$WORK" "$@"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || exit 2
exit $rc
