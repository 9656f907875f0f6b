#!/bin/bash
# check.sh ID            decide property ID on /repo's current working tree
# check.sh replay FILE   re-execute a recorded violation
# Rebuilds the harness against /repo on every call. Tier: $VERIF_TIER (quick|thorough).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
export VERIF_DIR="$here"
mkdir -p "$here/build" || exit 2
bin=$(mktemp "$here/build/harness.XXXXXX") || exit 2
trap 'rm -f "$bin" "$bin.race"' EXIT
cd "$here/harness" || exit 2
go build -o "$bin" . || { echo "harness does not build against /repo" >&2; exit 2; }
if [ "$1" = I01 ] || { [ "$1" = replay ] && grep -q '"Property": "I01"' "$2"; }; then
  # without a working race build the pass is skipped, and the evidence file says so
  CGO_ENABLED=1 go build -race -o "$bin.race" . && export VERIF_RACE_BIN="$bin.race"
fi
if [ "$1" = replay ]; then "$bin" replay "$2"; exit $?; fi
"$bin" check "$1"
exit $?
