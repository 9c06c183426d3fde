#!/bin/bash
# Builds the analyzer, and warms the build cache it loads the program from.
cd "$(dirname "$0")" || exit 3
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
mkdir -p bin evidence
(cd analyzer && GOFLAGS=-mod=vendor go build -o ../bin/gotorlint .) || exit 3
(cd /repo/src && go list -export -deps ./... >/dev/null) || exit 3
