#!/bin/bash
# Builds the symbolic execution engine from the committed sources, offline.
set -e
cd "$(dirname "$0")"
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local
mkdir -p bin
cd engine
GO=go
if [ -x /usr/local/go/bin/go ]; then GO=/usr/local/go/bin/go; fi
$GO build -o ../bin/verifengine.tmp.$$ . && mv ../bin/verifengine.tmp.$$ ../bin/verifengine
