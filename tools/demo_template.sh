#!/bin/bash
# Runs the test beside this file inside the package named in pkg.txt, through an overlay; run in the repository.
D="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH GOTOOLCHAIN=local GOPROXY=off
R="$PWD"; P="$(cat "$D/pkg.txt")"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$R" "$P" "$D" > "$T/o.json"
export DEMO_SCRATCH="$T"
go test -count=1 -timeout 120s $(cat "$D/flags.txt" 2>/dev/null) -overlay "$T/o.json" -run 'TestDemo' "./$P"
