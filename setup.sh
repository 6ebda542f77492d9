#!/bin/bash
# builds the verifier from the committed files (offline)
D=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$D/.build"
if [ -x "$D/.build/govc" ] && [ -z "$(find "$D/govc" -newer "$D/.build/govc" -name '*.go' -print -quit)" ]; then exit 0; fi
cd "$D/govc" || exit 1
env -u GOROOT -u GOPATH -u GO111MODULE GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOCACHE="$D/.build/gocache" go build -o "$D/.build/govc" .
