#!/bin/bash
# Builds the analyser from /verif/tool and runs one check: run.sh <property>
# [tier]. Only the analyser is built; /repo is read as source.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off
export GOCACHE="${GOCACHE:-$(go env GOCACHE 2>/dev/null || echo /tmp/gocache)}"
T=$(mktemp -d) || exit 2
trap 'rm -rf -- "$T"' EXIT
(cd "$V/tool" && go build -o "$T/bv" .) || { echo "the analyser does not build"; exit 2; }
unset GOFLAGS
[ "${1:-}" = setup ] && exit 0
BV_VERIF="$V" "$T/bv" check "$@"
