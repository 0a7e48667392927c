#!/bin/bash
# runs main.go of this folder as a program inside the module in the current directory
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp go.mod go.sum "$T/"
{ echo '{"Replace":{'; s=; for f in "$D"/*.go; do echo "$s\"$PWD/zzdemo/$(basename "$f")\":\"$f\""; s=,; done; echo '}}'; } > "$T/o.json"
go build -modfile="$T/go.mod" -overlay "$T/o.json" -o "$T/demo" ./zzdemo || exit 3
cd "$T" && timeout 200 ./demo
