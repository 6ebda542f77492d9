#!/bin/bash
cd /verif/govc && GOFLAGS=-mod=mod GOPROXY=off go build -o /tmp/govc . && GOVC_SPECS=${GOVC_SPECS:-/verif/contracts} timeout ${T:-120} /tmp/govc "$@"
