#!/bin/bash
# check.sh <property>: decides one property from /repo's current source.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GOFLAGS=-mod=mod
if [ ! -x bin/vx ] || [ -n "$(find tool -newer bin/vx -name '*.go' -print -quit)" ]; then
  bash build.sh || exit 2
fi
exec bin/vx -repo "${VX_REPO:-/repo}" -out "${VX_OUT:-$PWD}" -known "$PWD" -property "$1"
