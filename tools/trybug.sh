#!/bin/bash
# trybug.sh ID [PROP...]: confirm a planted bug in a scratch copy of /repo and run checks on it.
id=$1; shift
b=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")}
w=$(mktemp -d /tmp/wt.XXXXXX)
trap 'rm -rf "$w"' EXIT
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod PATH=/opt/veriftools/go1.24.13/bin:$PATH
cp -a /repo "$w/repo"; cd "$w/repo"
if [ -z "$NOCONFIRM" ]; then
bash $b/demo.sh >"$w/demo0" 2>&1 && echo "$id demo clean: ok" || { echo "$id DEMO FAILS ON CLEAN TREE"; tail -5 "$w/demo0"; }
fi
git apply $b/patch.diff || { echo "$id DOES NOT APPLY"; exit 1; }
if [ -z "$NOCONFIRM" ]; then
bash $b/demo.sh >"$w/demo1" 2>&1 && echo "$id DEMO PASSES WITH THE BUG" || echo "$id demo with bug fails: $(grep -m1 -- '_test.go:\|panic\|RACE' "$w/demo1")"
go build ./... || echo "$id DOES NOT BUILD"
go test ./... >"$w/test" 2>&1 && echo "$id tests pass" || { echo "$id TESTS FAIL"; grep -- "--- FAIL\|FAIL" "$w/test" | head; }
fi
unset GOFLAGS
export PATH=${PATH#/opt/veriftools/go1.24.13/bin:}
for p in $props; do
  VERIF_DIR=${VD:-/verif} timeout 880 ${GOCV:-/tmp/gocv} -repo "$w/repo" check $p > "$w/out" 2>&1
  echo "$id $p exit=$? $(grep -m2 'VIOLATION\|^OK' "$w/out") :: $(grep -m3 'failed obligation\|failing input' "$w/out" | cut -c1-230 | tr '\n' '|')"
done
