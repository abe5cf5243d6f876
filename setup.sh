#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off CGO_ENABLED=0
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME="${HOME:-/root}"
mkdir -p "$here/build" && cd "$here/engine" && go build -o "$here/build/engine" .
