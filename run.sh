#!/bin/bash
# Builds the simulator from /repo's working tree and decides one property.
# usage: run.sh PROPERTY [quick|thorough]
# environment: VERIF_SEED (default 1), VERIF_TIER (default quick)
# exit 0: held, 1: VIOLATION line printed, anything else: the check did not work
VERIF=$(cd "$(dirname "$0")" && pwd)
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
case $SEED in '' | *[!0-9]*) SEED=$(printf %s "$SEED" | cksum | cut -d' ' -f1) ;; esac
TMP=$(mktemp -d "${TMPDIR:-/tmp}/toksim.XXXXXX") || exit 2
trap 'rm -rf -- "$TMP"' EXIT
trap 'exit 2' INT TERM
if ! bash "$VERIF/build.sh" "$TMP/b" >"$TMP/build.log" 2>&1; then
	cat "$TMP/build.log"
	echo "ERROR the simulator could not be built"
	exit 2
fi
mkdir -p "$TMP/w"
"$TMP/b/sim" check -prop "$PROP" -seed "$SEED" -tier "$TIER" -evidence "$VERIF/evidence" -replays "$VERIF/replays" \
	-tmp "$TMP/w" -known "$VERIF/KNOWN_FINDINGS.txt" -sites "$TMP/b/ov/sites.json"
exit $?
