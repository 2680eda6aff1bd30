#!/bin/bash
# benign.sh [-c "C18 C20"] <id>...: applies behaviour-preserving edits (benign/<id>.diff) in a scratch copy and runs the checks: all must stay quiet.
V="$(cd "$(dirname "$0")/.." && pwd)"; . /opt/vp/env.sh
CHK="${CHK:-$V/bin/chk}"
if [ "$1" = -c ]; then cs="$2"; shift 2; else cs=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']))"); fi
[ $# -gt 0 ] || set -- $(cd $V/benign && ls *.diff | sed 's/.diff//')
for id in "$@"; do
  W=/tmp/benw.$id; rm -rf $W; cp -a /repo $W; cd $W
  git apply $V/benign/$id.diff 2>/tmp/ben.err || { echo "$id: DOES NOT APPLY"; head -3 /tmp/ben.err; rm -rf $W; continue; }
  go build ./... >/tmp/ben.err 2>&1 || { echo "$id: NO BUILD"; head -5 /tmp/ben.err; rm -rf $W; continue; }
  t=""; [ -n "$NOTEST" ] || t=$(go test ./... 2>&1 | grep -c '^FAIL\|--- FAIL')
  out=$(for x in $cs; do echo $x; done | xargs -P 8 -I{} sh -c "timeout 900 $CHK run {} $W /tmp/vv quick > /tmp/ben.$id.{} 2>&1 || echo -n ' {}'; [ -n \"$KEEP\" ] || true")
  echo "$id: testfails=$t alarms:$out"
  for x in $out; do grep -v "^ *rule\|^ *note\|^property" /tmp/ben.$id.$x | head -${LINES_MAX:-3} | cut -c1-260; done
  rm -rf $W; rm -f /tmp/ben.$id.*
done
