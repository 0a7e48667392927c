#!/bin/bash
# tryseed.sh <id> [CHECK] [test]: applies the seed to a scratch copy; demo on both, stable tests, and optionally our check
ID=$1; S=/verif/seeded/$ID; W=/tmp/seed-$ID; D=/tmp/seedd-$ID
rm -rf "$W" "$D"; cp -a /repo "$W"; cd "$W" || exit 2
mkdir "$D"; cp "$S"/* "$D/"; rm -f "$D/patch.diff" "$D/meta.json"
git checkout -q -- '*.go'
bash "$D/demo.sh" >/tmp/seed-$ID.clean 2>&1; a=$?
git apply "$S/patch.diff" || { echo "$ID patch does not apply"; rm -rf "$W" "$D"; exit 2; }
. /opt/vp/env.sh; go build ./... || { echo "$ID no build"; rm -rf "$W" "$D"; exit 2; }
t0=$(date +%s); bash "$D/demo.sh" >/tmp/seed-$ID.bug 2>&1; b=$?
echo "$ID demo clean=$a bug=$b ($(( $(date +%s)-t0 )) s): $(tail -1 /tmp/seed-$ID.bug | cut -c1-150)"
[ $a = 0 ] || tail -3 /tmp/seed-$ID.clean
if [ "$2" = test ] || [ "$3" = test ]; then
  go test ./... 2>&1 | grep -E "^(--- FAIL|FAIL|ok)" | head
fi
if [ -n "$2" ] && [ "$2" != test ]; then
  H=/tmp/seedh-$ID; rm -rf "$H"; mkdir -p "$H"; cp -a /verif/harness /verif/tools /verif/run.sh /verif/known_findings.txt "$H/"; mkdir -p "$H/evidence"
  sed -i "s#=> /repo#=> $W#" "$H/harness/go.mod"
  grep -q "$W" "$H/harness/go.mod" || echo "no replace"
  sed -i "s#/repo\b#$W#g" "$H/run.sh" "$H/tools/overlay.py"
  t0=$(date +%s)
  bash "$H/run.sh" "$2" >/tmp/seed-$ID.check 2>&1; rc=$?; grep -v "^KNOWN" /tmp/seed-$ID.check | tail -2 | cut -c1-300; echo "$ID exit $rc in $(( $(date +%s)-t0 )) s"
  rm -rf "$H"
fi
rm -rf "$W" "$D"
