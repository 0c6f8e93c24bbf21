#!/bin/bash
# plant.sh ID [--nocheck] [secs] : confirms seeded/ID in a scratch copy (builds,
# stable tests pass, demo passes without and fails with the patch) and runs the
# property's check against it.
VERIF=$(cd "$(dirname "$0")/.." && pwd)
ID=$1; D=$VERIF/seeded/$ID; SECS=${3:-}
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
S=$(mktemp -d /dev/shm/plant.XXXXXX); trap 'rm -rf "$S"' EXIT
cp -a /repo "$S/repo"; mkdir "$S/demo"; cp "$D"/* "$S/demo/"; rm -f "$S/demo/patch.diff" "$S/demo/meta.json"
cd "$S/repo" && git checkout -q -- . 
timeout 300 bash "$S/demo/demo.sh" >"$S/d0" 2>&1; r0=$?
git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
go build ./... && go vet ./... >/dev/null 2>"$S/vet" || { echo "$ID: build/vet: "; cat "$S/vet"; }
go test ./... >"$S/t" 2>&1; rt=$?
(cd cli/html2markdown 2>/dev/null && [ -f go.mod ] && go test ./... >>"$S/t" 2>&1)
timeout 300 bash "$S/demo/demo.sh" >"$S/d1" 2>&1; r1=$?
echo "$ID ($P): demo clean=$r0 patched=$r1 tests=$rt"
[ $r0 = 0 ] || tail -5 "$S/d0"; [ $r1 != 0 ] || tail -5 "$S/d1"; [ $rt = 0 ] || grep -E "^(---|FAIL)" "$S/t" | head
[ "$2" = --nocheck ] && exit
VERIF_REPO=$S/repo "$VERIF/bin/check.sh" $P ${SECS:+-secs $SECS} >"$S/c" 2>"$S/ce"; rc=$?
echo "   check $P exit=$rc: $(grep -E "^VIOLATION|^held" "$S/c") "; grep -E "^violation of|replays exactly" "$S/c" | cut -c1-300; [ $rc -le 1 ] || tail -3 "$S/ce"
