#!/bin/bash
# Builds the simulator against the current working tree of /repo.
# usage: build.sh OUT_DIR   (writes OUT_DIR/sim)
set -e
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
unset GOOS GOARCH
VERIF=$(cd "$(dirname "$0")" && pwd)
OUT=$1
mkdir -p "$OUT/ov"
(cd "$VERIF/instr" && go build -o "$OUT/instr" .)
for opt in "" -plain; do
	"$OUT/instr" $opt -repo /repo -out "$OUT/ov"
	(cd "$VERIF/sim" && go build -overlay "$OUT/ov/overlay.json" -o "$OUT/sim" .) && exit 0
done
exit 1
