#!/bin/bash
# Builds the analyser from the committed sources, offline.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
mkdir -p bin evidence
cd tool && go build -o ../bin/vx.new . && mv ../bin/vx.new ../bin/vx
