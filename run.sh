#!/bin/bash
# run.sh PROPERTY quick|thorough : builds the machinery and the code under test
# from /repo's working tree and explores. Exit 0, 1 (VIOLATION) or 2 (broken).
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-quick}
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
chmod 755 "$bin"
if ! (cd "$here/mc" && go build -o "$bin/mc" .) >"$bin/log" 2>&1; then
	cat "$bin/log"
	echo "check $id: build failed"
	exit 2
fi
if ! (cd /repo && go build -o "$bin/lharc" ./cmd) >"$bin/log" 2>&1; then
	cat "$bin/log"
	echo "check $id: build of the command failed"
	exit 2
fi
chmod 755 "$bin"/*
mkdir -m 777 "$bin/answers" # shared by the workers
"$bin/mc" check "$id" "$tier" "$here/evidence" "$bin"
