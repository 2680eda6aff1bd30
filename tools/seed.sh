#!/bin/bash
# seed.sh <id>...: confirms planted bugs in a scratch copy: applies, builds, tests pass, demo 0 without / nonzero with; runs the check.
V="$(cd "$(dirname "$0")/.." && pwd)"; . /opt/vp/env.sh
W=/tmp/seedw; CHK="${CHK:-$V/bin/chk}"
for id in "$@"; do
  D="$V/seeded/$id"; rm -rf /tmp/seedw /tmp/seedd; cp -a /repo $W; cp -a "$D" /tmp/seedd; rm -f /tmp/seedd/patch.diff /tmp/seedd/meta.json
  cd $W
  prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  bash /tmp/seedd/demo.sh >/tmp/seed.clean 2>&1; c=$?
  if ! git apply "$D/patch.diff" 2>/tmp/seed.err; then echo "$id: DOES NOT APPLY"; continue; fi
  go build ./... >/tmp/seed.err 2>&1 || { echo "$id: NO BUILD"; head -5 /tmp/seed.err; continue; }
  t=$(go test ./... 2>&1 | grep -c '^FAIL\|--- FAIL')
  bash /tmp/seedd/demo.sh >/tmp/seed.pat 2>&1; p=$?
  if [ -n "$CHECKS" ]; then cs="$CHECKS"; else cs=$prop; fi
  res=""
  for x in $cs; do "$CHK" run $x $W /tmp/vv quick >/tmp/seed.chk.$x 2>&1; res="$res $x=$?"; done
  echo "$id: demo clean=$c patched=$p testfails=$t checks:$res $(grep -h -m1 VIOLATION -B1 /tmp/seed.chk.$prop | head -1 | cut -c1-160)"
done
rm -rf /tmp/seedw /tmp/seedd
