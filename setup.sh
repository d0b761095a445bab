#!/bin/bash
# Warms the build cache; check.sh builds the analyser itself in every run.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
cd "$here/analyzer" && go build -o /dev/null . && mkdir -p "$here/evidence"
