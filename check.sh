#!/bin/bash
# usage: check.sh <property> <quick|thorough>
# Builds the analyser from /verif/analyzer and applies one property's rules to
# /repo's current working tree. Exit 0: holds; 1: VIOLATION.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
bin=$(mktemp -d /tmp/zv.XXXXXX)
trap 'rm -rf -- "$bin"' EXIT
( cd "$here/analyzer" && go build -o "$bin/zv" . ) || { echo "cannot build the analyser"; exit 3; }
ZV_VERIF="$here" "$bin/zv" "$1" "${2:-quick}"
