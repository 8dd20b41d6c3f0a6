#!/bin/bash
# Builds the symbolic execution engine (offline) and warms the Go build cache.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*' GOSUMDB=off GOWORK=off
mkdir -p "$here/bin" "$here/evidence"
cd "$here/engine"
go build -o "$here/bin/symgo" .
