#!/bin/bash
# Warms the build cache (plain and race-instrumented standard library and
# monitor); every check builds again from /repo's current tree.
cd "$(dirname "$0")/mon" || exit 2
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
B=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
go build -o "$B/mon" . && go build -race -o "$B/mon-race" .
