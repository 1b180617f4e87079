#!/bin/bash
# Compiles the explorer once, so that the Go build cache is warm.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TZ=UTC
HERE=$(cd "$(dirname "$0")" && pwd)
DIR=$(mktemp -d /tmp/mc-build-XXXXXX) || exit 1
trap 'rm -rf "$DIR"' EXIT
cp "$HERE/mc/go.mod" "$HERE/mc/go.sum" "$DIR/" || exit 1
cd "$HERE/mc" && go build -modfile="$DIR/go.mod" -o "$DIR/mc" . && go vet -modfile="$DIR/go.mod" ./engine ./wire >/dev/null 2>&1
[ -x "$DIR/mc" ]
