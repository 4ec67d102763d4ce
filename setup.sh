#!/bin/bash
# Builds the verifier, offline.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p bin evidence
cd gover && go build -o ../bin/gover . && go vet .
