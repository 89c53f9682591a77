#!/bin/bash
# Runs checks against a copy of /repo with a patch: trybug.sh PATCH [-r] PROP...
# For experiments only; the registered checks work on /repo itself.
V=$(cd "$(dirname "$0")/.." && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
PATCH=$(realpath "$1"); shift
REV=; [ "$1" = -r ] && { REV=-R; shift; }
T=$(mktemp -d /tmp/trybug.XXXXXX); trap 'rm -rf -- "$T"' EXIT
cp -a /repo "$T/repo"
git -C "$T/repo" apply $REV "$PATCH" || { echo "PATCH DOES NOT APPLY $PATCH"; exit 2; }
(cd "$V/instr" && go build -o "$T/instr" .) && "$T/instr" -repo /repo -src "$T/repo" -out "$T/ov" || exit 2
(cd "$V/sim" && go build -overlay "$T/ov/overlay.json" -o "$T/sim" .) || exit 2
mkdir -p "$T/w"
for p in "$@"; do
	"$T/sim" check -prop $p -seed ${VERIF_SEED:-1} -tier quick -evidence "$T/ev" -replays "$T/rep" -tmp "$T/w" -known "$V/KNOWN_FINDINGS.txt" -sites "$T/ov/sites.json" >"$T/out" 2>&1
	rc=$?
	echo "$p rc=$rc $(grep -A1 '^violation of' "$T/out" | cut -c1-${W:-200} | tr '\n' ' ')"
	[ $rc = 0 ] || [ $rc = 1 ] || tail -5 "$T/out"
done
