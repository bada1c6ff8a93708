#!/bin/bash
# Builds the verifier, offline, from the committed files.
set -e
cd "$(dirname "$0")/.."
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
mkdir -p bin
cd govc && go build -o ../bin/govc .
