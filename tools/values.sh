#!/bin/bash
# values.sh OUT [PROP...]: which values the checks show to every integer variable and
# length of the code (development aid). Works in a scratch copy; OUT gets, per
# variable, the boundary values no check produced.
OUT=$(realpath -m "$1"); shift
PROPS=${*:-$(seq -f C%02.0f 23)}
V=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d /tmp/values.XXXXXX); trap 'rm -rf "$T"' EXIT
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
mkdir $T/repo $T/maps && git -C /repo archive HEAD | tar x -C $T/repo
cp -a "$V/mon" $T/mon && sed -i 's#=> /repo#=> ../repo#' $T/mon/go.mod
(cd "$V/tools/values" && go build -o $T/vc .) || exit 2
(cd $T/repo && $T/vc . 0 $T/table && $T/vc ./cmd/dawgtool $(wc -l < $T/table) $T/table) || exit 2
(cd $T/repo && go build -o $T/dawgtool ./cmd/dawgtool) && (cd $T/mon && go build -o $T/m .) || exit 2
N=$(wc -l < $T/table)
for p in $PROPS; do
  truncate -s $((N * 2304)) $T/maps/$p
  ZZMAP=$T/maps/$p $T/m -prop $p -tier quick -seed ${VERIF_SEED:-1} -out $T/out -dawgtool $T/dawgtool > $T/log 2>&1 || { echo "$p: $(tail -1 $T/log)"; }
done
python3 "$V/tools/values/report.py" $T/table $T/maps > "$OUT"
