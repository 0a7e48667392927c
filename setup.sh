#!/bin/bash
# Compiles the checks once (warms the build cache; every check builds again from /repo's working tree).
set -u
V=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
B=$(mktemp -d /tmp/verif-setup-XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
cp "$V/harness/go.mod" "$V/harness/go.sum" "$B/" || exit 2
cd "$V/harness" && go build -modfile="$B/go.mod" -o "$B/vrun" .
