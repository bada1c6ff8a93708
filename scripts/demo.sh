#!/bin/bash
# Exit 0 when the property holds on the code in the current directory. Runs demo_test.go inside the package named by the file pkg.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
p=$(cat "$d/pkg")
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s":"%s"}}' "$PWD/$p/zz_demo_test.go" "$d/demo_test.go" > "$t/overlay.json"
export DEMO_OVERLAY="$t/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestDemo$' "./$p"
