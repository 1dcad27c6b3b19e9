#!/bin/bash
# try.sh PATCH PROP...: runs checks against a scratch copy of /repo with a
# patch applied (development aid; the registered checks run against /repo).
P=$(realpath "$1"); shift
T=$(mktemp -d /tmp/try.XXXXXX); trap 'rm -rf "$T"' EXIT
mkdir $T/repo && (cd /repo && tar c --exclude=.git .) | tar x -C $T/repo
cp -a "$(dirname "$0")/../mon" $T/mon
sed -i 's#=> /repo#=> ../repo#' $T/mon/go.mod
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
(cd $T/repo && git init -q . && git apply "$P") || exit 2
(cd $T/repo && go build -o $T/dawgtool ./cmd/dawgtool) && (cd $T/mon && go build -o $T/m . ) || exit 2
for p in "$@"; do
  b=$T/m
  if [ $p = C16 ]; then (cd $T/mon && go build -race -o $T/mr .); b=$T/mr; fi
  s=$(date +%s)
  $b -prop $p -tier ${TIER:-quick} -seed ${VERIF_SEED:-1} -out $T/out -dawgtool $T/dawgtool > $T/log 2>&1; c=$?
  echo "$(basename $(dirname $P)) $p exit=$c $(($(date +%s)-s))s $(grep '^case ' $T/log | head -1 | cut -c1-150)"
  [ -n "$V" ] && tail -20 $T/log
done
