#!/bin/bash
# builds the verification-condition generator (offline)
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off
mkdir -p bin
cd govc && go build -o ../bin/govc .
