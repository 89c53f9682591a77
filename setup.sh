#!/bin/bash
# Fills the build cache, so that the checks start quickly.
VERIF=$(cd "$(dirname "$0")" && pwd)
TMP=$(mktemp -d "${TMPDIR:-/tmp}/toksim.XXXXXX") || exit 2
trap 'rm -rf -- "$TMP"' EXIT
bash "$VERIF/build.sh" "$TMP/b"
