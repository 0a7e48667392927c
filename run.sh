#!/bin/bash
# run.sh <property> [flags]: builds the checks from /repo's working tree and runs one.
set -u
ID=$1; shift
V=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
B=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
cp "$V/harness/go.mod" "$V/harness/go.sum" "$B/" || exit 2
RETRY=$(cd "$V/harness" && go list -modfile="$B/go.mod" -m -f '{{.Dir}}' github.com/avast/retry-go/v4 2>/dev/null)
MODE="" RACE="" TAGS="" DUTY=""
case "$ID" in C18) RACE="-race";; C19) MODE=locks TAGS="lockmon,";; esac
# a tree that keeps the fetcher's epoch cache elsewhere is checked without resetting the variable
build() { DUTY=""; build1 || { grep -q "oracle.ProposalDutyCache\|oracle.EpochDuties" "$B/log" && DUTY="nodutyvar" && build1; }; }
build1() {
  python3 "$V/tools/overlay.py" "$B" "$RETRY" $MODE || return 1
  (cd "$V/harness" && go build $RACE -tags="$TAGS$DUTY" -overlay="$B/overlay.json" -modfile="$B/go.mod" -o "$B/vrun" .) >"$B/log" 2>&1 || return 1
  case "$ID" in C18|C19|C23|C26|C31|C32|C33) # the real program, too
    mkdir -p "$B/m" && cp /repo/go.mod /repo/go.sum "$B/m/" &&
    (cd /repo && go build $RACE -buildvcs=false -overlay="$B/overlay.json" -modfile="$B/m/go.mod" -o "$B/prog" .) >>"$B/log" 2>&1 || return 1;;
  esac
}
if ! build; then
  # a tree whose locks the monitor cannot wrap is checked without it
  if [ -z "$MODE" ] || ! { MODE="" TAGS="" && build; }; then
    echo "build failed:"; tail -30 "$B/log"; exit 2
  fi
  echo "note: built without the lock monitor"
fi
"$B/vrun" -prop "$ID" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$V" -build "$B" "$@"
exit $?
