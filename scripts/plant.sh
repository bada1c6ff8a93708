#!/bin/bash
# scripts/plant.sh ID [--nocheck]: confirm a planted bug in a scratch copy of /repo, then run its property's check against it.
# The scratch copy lives in /tmp/plant-ID and is removed afterwards.
id=$1; d=/verif/seeded/$id; s=/tmp/plant-$id
. /opt/vp/env.sh
rm -rf "$s"; cp -a /repo "$s"
cd "$s" || exit 2
run_tests() { go test -vet=off -count=1 -timeout 10m $(go list -e ./... | grep -v '/tests/interop/') 2>&1 | grep -v '^ok\|no test files' ; }
( cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/plant-$id.base 2>&1 ); b=$?
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$s"; exit 1; }
go build ./... || { echo "$id: does not build"; rm -rf "$s"; exit 1; }
t=$(run_tests)
timeout 300 bash "$d/demo.sh" >/tmp/plant-$id.out 2>&1; p=$?
echo "$id: demo on base $b (want 0), demo with the bug $p (want non-zero), failing tests: ${t:-none}"
if [ "$2" != "--nocheck" ]; then
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  GOVC_REPO=$s GOVC_WORK=$s.work /verif/bin/govc check -p "$prop" -tier quick 2>&1 | grep -v '^KNOWN' | tail -4 | cut -c1-300
fi
rm -rf "$s" "$s.work" /tmp/plant-$id.*
