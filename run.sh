#!/bin/bash
# run.sh ID: rebuild the harness against /repo's working tree and run one check.
# run.sh setup: build only.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
export GOMODCACHE=/root/go/pkg/mod
mkdir -p build evidence replays
export GOCACHE="$PWD/build/gocache"
bin="$PWD/build/vh.$$"
trap 'rm -f "$bin"' EXIT
(cd harness && go build -o "$bin" ./cmd/vh) || { echo "ERROR the harness does not build against /repo"; exit 2; }
if [ "$1" = setup ]; then mv "$bin" build/vh; exit 0; fi
"$bin" check "$1"
