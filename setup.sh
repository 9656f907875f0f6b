#!/bin/bash
# Builds the harness once (plain and with the race detector) to warm the build cache.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here/harness" || exit 1
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
go build -o "$d/h" . || exit 1
CGO_ENABLED=1 go build -race -o "$d/r" . || echo "race build not available" >&2
exit 0
