#!/bin/bash
# check.sh ID            run the check of property ID on /repo's current working tree
# check.sh --replay F    re-execute a recorded violation
# Exit 0: held. 1: VIOLATION line printed. Anything else: error of the check.
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
export PATH=/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 CGO_ENABLED=0
export HOME=${HOME:-/root}
export GOCACHE=${VERIF_GOCACHE:-$HOME/.cache/go-build}
unset CSEARCHINDEX
work=$(mktemp -d /tmp/mcbuild.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
trap 'exit 143' TERM INT
cd "$VERIF_DIR" || exit 3
export MC_BIN=$work/bin
mkdir -p "$MC_BIN"
if ! go build -o "$MC_BIN/mc" ./cmd/mc 2> "$work/err"; then
	echo "build of the checker against /repo failed:" >&2; cat "$work/err" >&2; exit 3
fi
if ! go build -o "$MC_BIN/" github.com/google/codesearch/cmd/... 2> "$work/err"; then
	echo "build of /repo commands failed:" >&2; cat "$work/err" >&2; exit 3
fi
export MC_WORK=$work
case "$1" in
--replay) "$MC_BIN/mc" replay "$2" ;;
*) "$MC_BIN/mc" run "$1" ;;
esac
