#!/bin/bash
# Warms the Go build cache for the checks; every check rebuilds from /repo by itself.
cd "$(dirname "$0")" || exit 1
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
(cd tools && go build -o /dev/null ./instr) && (cd vsched && go build ./...)
