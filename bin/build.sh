# Sourced: build_sim [-race] builds the instrumented program to $BIN from
# /repo's working tree, in a scratch directory $WORK removed at exit.
REPO=${VERIF_REPO:-/repo}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
mkdir -p "$VERIF/.build/gocache" || exit 2
export GOCACHE=$VERIF/.build/gocache
BASE=/tmp; [ -d /dev/shm ] && [ -w /dev/shm ] && BASE=/dev/shm
WORK=$(mktemp -d "$BASE/vsim.XXXXXXXX") || exit 2
trap 'rm -rf "$WORK"' EXIT
trap 'exit 2' INT TERM
build_sim() {
  local goroot
  goroot=$(go env GOROOT) || exit 2
  (cd "$VERIF/sim/vinstr" && GOFLAGS= GO111MODULE=off go build -o "$WORK/vinstr" main.go) || { echo "building vinstr failed" >&2; exit 2; }
  "$WORK/vinstr" -repo "$REPO" -goroot "$goroot" -verif "$VERIF" -out "$WORK/gen" >&2 || exit 2
  BIN=$WORK/vsim
  local tags=
  grep -rqs --include='*.go' --exclude='*_test.go' '"net/http"' "$REPO" && tags=verifhttp
  (cd "$REPO" && go build "$@" -tags "$tags" -overlay "$WORK/gen/overlay.json" -o "$BIN" ./internal/vsim/cmd/vsim) || { echo "building the simulation failed" >&2; exit 2; }
  rm -rf "$WORK/gen"
}
