#!/bin/bash
# replay.sh FILE : runs again the case of a replay file written by a check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
file=$(readlink -f "$1")
id=$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$file")
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
chmod 755 "$bin"
(cd "$here/mc" && go build -o "$bin/mc" .) || exit 2
(cd /repo && go build -o "$bin/lharc" ./cmd) || exit 2
"$bin/mc" replay "$id" "$file" "$here/evidence" "$bin"
