#!/bin/bash
# Writes sim/dict_base.txt: the literals of /repo's current tree.
VERIF=$(cd "$(dirname "$0")/.." && pwd); . "$VERIF/bin/build.sh"
(cd "$VERIF/sim/vinstr" && GOFLAGS= GO111MODULE=off go build -o "$WORK/vinstr" main.go) && "$WORK/vinstr" -repo "$REPO" -goroot "$(go env GOROOT)" -verif "$VERIF" -out "$WORK/gen" -dict "$VERIF/sim/dict_base.txt"
