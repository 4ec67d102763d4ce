#!/bin/bash
# check.sh PROPERTY [quick|thorough]: verifies one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p bin evidence
(cd gover && go build -o ../bin/gover .) || exit 2
exec bin/gover -verif "$PWD" -tier "${2:-${VERIF_TIER:-quick}}" check "$1"
