#!/bin/bash
# runs main.go of this folder as a program inside the module in the current directory;
# the program itself is built too, with shorter pauses
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp go.mod go.sum "$T/"
RETRY=$(go list -m -f '{{.Dir}}' github.com/avast/retry-go/v4)
sed 's#return time.After(d)$#return time.After(d / 1500)#' "$RETRY/retry.go" > "$T/retry.go"
sed 's#time\.Sleep(\(.*\))$#time.Sleep((\1) / 1500)#' main.go > "$T/prog.go"
{ echo '{"Replace":{'; echo "\"$RETRY/retry.go\":\"$T/retry.go\",\"$PWD/main.go\":\"$T/prog.go\""; for f in "$D"/*.go; do echo ",\"$PWD/zzdemo/$(basename "$f")\":\"$f\""; done; echo '}}'; } > "$T/o.json"
[ -n "$NEED_PROG" ] || grep -q 'program(' "$D/main.go" && { go build -buildvcs=false -modfile="$T/go.mod" -overlay "$T/o.json" -o "$T/prog" . || exit 3; }
go build -buildvcs=false -modfile="$T/go.mod" -overlay "$T/o.json" -o "$T/demo" ./zzdemo || exit 3
mkdir "$T/w"; cd "$T/w" && DEMO_PROG="$T/prog" timeout 250 "$T/demo"
