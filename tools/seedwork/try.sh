#!/bin/bash
# try.sh <id>...: verify seeded bugs in a scratch copy
rm -rf /tmp/scr; cp -a /repo /tmp/scr
for id in "$@"; do
  S=/verif/seeded/$id; cd /tmp/scr; git checkout -q -- . ; 
  L=$(mktemp -d); cp $S/* $L/; rm -f $L/*.diff $L/meta.json
  bash $L/demo.sh >$L/o1 2>&1; a=$?
  if ! git apply $S/patch.diff; then echo "$id APPLY FAILED"; continue; fi
  go build ./... >$L/ob 2>&1; b=$?
  go vet ./validator/... ./sync/... ./ov ./ca >/dev/null 2>&1
  t=$(go test ./... 2>&1 | grep -c '^FAIL\|--- FAIL')
  bash $L/demo.sh >$L/o2 2>&1; c=$?
  echo "$id clean=$a build=$b testfails=$t patched=$c"
  [ $a = 0 ] || tail -5 $L/o1; [ $c != 0 ] || echo "   NOT DEMONSTRATED"; grep -m3 'demo_test\|panic' $L/o2; [ $b = 0 ] || cat $L/ob
  rm -rf $L
done
rm -rf /tmp/scr
