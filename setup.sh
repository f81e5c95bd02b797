#!/bin/bash
# Nothing has to be built beforehand: every check builds what it needs from /repo's tree.
# This warms the Go build cache and verifies that the tools are there.
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
command -v java javac go python3 >/dev/null || { echo "tools missing"; exit 1; }
(cd /repo && go build ./... ) || exit 1
exit 0
