#!/bin/bash
# Replays a stored violation against /repo's working tree.
# usage: replay.sh FILE; exit 1: reproduced, 0: the property holds now, 2: other
VERIF=$(cd "$(dirname "$0")" && pwd)
TMP=$(mktemp -d "${TMPDIR:-/tmp}/toksim.XXXXXX") || exit 2
trap 'rm -rf -- "$TMP"' EXIT
bash "$VERIF/build.sh" "$TMP/b" || exit 2
"$TMP/b/sim" replay "$1"
exit $?
