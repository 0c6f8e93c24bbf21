#!/bin/bash
# Fills the build cache of the checks (they rebuild from /repo's tree themselves).
VERIF=$(cd "$(dirname "$0")/.." && pwd)
. "$VERIF/bin/build.sh"
build_sim
build_sim -race
