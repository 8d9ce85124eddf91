#!/bin/sh
# usage: check.sh ID   (run in /verif) - builds the analyser if needed and decides one property.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GO111MODULE=on
[ -n "$GOCACHE" ] || { mkdir -p "$HOME/.cache/go-build" 2>/dev/null && [ -w "$HOME/.cache/go-build" ] || export GOCACHE=/tmp/goslidecheck-gocache; }
bin=bin/goslidecheck
stale=1
if [ -x $bin ]; then stale=; for f in analyzer/*.go analyzer/go.mod; do [ "$f" -nt $bin ] && stale=1; done; fi
if [ -n "$stale" ]; then
  mkdir -p bin
  (cd analyzer && go build -o ../bin/.gsc.$$ .) && mv -f bin/.gsc.$$ $bin || exit 3
fi
[ -n "$1" ] || exit 0
mkdir -p evidence
export VERIF_DIR="$PWD"
exec $bin -check "$1"
