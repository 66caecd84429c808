#!/bin/bash
# Builds nothing that is kept: every check builds from /repo's working tree. This only verifies that the tools work.
cd "$(dirname "$0")" || exit 1
export HOME=/root PATH=$PATH:/opt/veriftools/go1.27.3/bin GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
cp tools/instr/*.go tools/instr/go.mod "$T/" && (cd "$T" && go build -o /dev/null .) || exit 1
mkdir -p evidence
echo ok
