#!/bin/bash
# scripts/check.sh PROPERTY quick|thorough
cd "$(dirname "$0")/.."
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
[ -x bin/govc ] || bash scripts/setup.sh || exit 2
export VERIF_ROOT="$PWD" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
exec bin/govc check -p "$1" -tier "$2"
