#!/bin/bash
# run.sh ID [-v]: decide one property on /repo's current source.
cd "$(dirname "$0")" || exit 3
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
mkdir -p bin evidence
(cd analyzer && GOFLAGS=-mod=vendor go build -o ../bin/gotorlint .) || exit 3
id=$1; shift
exec ./bin/gotorlint -prop "$id" -repo "${GOTOR_REPO:-/repo}" -verif . "$@"
