#!/bin/bash
# check.sh PROPERTY [quick|thorough]: verify the contracts of one property on /repo's current tree.
dir=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
bin=$dir/gocv/bin/gocv
if [ ! -x "$bin" ] || [ -n "$(find "$dir/gocv" -name '*.go' -newer "$bin" | head -1)" ]; then
  (cd "$dir/gocv" && mkdir -p bin && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o "bin/gocv.$$" . && mv "bin/gocv.$$" bin/gocv) || { echo "gocv does not build"; exit 2; }
fi
[ "$1" = setup ] && exit 0
export VERIF_DIR=$dir
exec timeout -k 5 "${VERIF_LIMIT:-850}" "$bin" -tier "${2:-${VERIF_TIER:-quick}}" check "$1"
