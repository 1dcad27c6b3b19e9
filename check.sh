#!/bin/bash
# check.sh PROPERTY [quick|thorough] [--replay FILE]: builds the monitor from
# /repo's current working tree and runs one property's check.
cd "$(dirname "$0")" || exit 2
V=$PWD
P=${1:?property}; TIER=${2:-${VERIF_TIER:-quick}}; shift; shift
SEED=${VERIF_SEED:-1}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOWORK=off
B=$(mktemp -d /tmp/verif-bin.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
RACE=
[ "$P" = C16 ] && RACE=-race
(cd "$V/mon" && go build $RACE -o "$B/mon" .) || { echo "ERROR: the monitor does not build against /repo"; exit 2; }
TOOL=
case $P in C17|C20)
  (cd /repo && go build -o "$B/dawgtool" ./cmd/dawgtool) || { echo "ERROR: dawgtool does not build"; exit 2; }
  TOOL=$B/dawgtool;;
esac
"$B/mon" -prop "$P" -tier "$TIER" -seed "$SEED" -out "$V" -dawgtool "$TOOL" "$@"
exit $?
