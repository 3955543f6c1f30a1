#!/bin/bash
# Builds the symbolic executor.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh >/dev/null 2>&1
export GOSUMDB=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
mkdir -p bin evidence
cd gosym && go build -o ../bin/gosym . 
