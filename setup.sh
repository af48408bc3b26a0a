#!/bin/bash
# Checks that the explorer and the commands build from /repo (nothing is kept: every check builds its own).
cd "$(dirname "$0")" || exit 1
export PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0 HOME=${HOME:-/root}
export GOCACHE=${VERIF_GOCACHE:-$HOME/.cache/go-build}
go build -o /dev/null ./cmd/mc && go build -o /dev/null github.com/google/codesearch/cmd/...
