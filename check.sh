#!/bin/bash
# check.sh <property> [quick|thorough]: decides one property on the current sources of /repo.
V="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-buildvcs=false" GOWORK=off
REPO="${VERIF_REPO:-/repo}"
mkdir -p "$V/evidence"
if [ ! -x "$V/bin/chk" ] || [ -n "$(find "$V/checker" -newer "$V/bin/chk" -name '*.go' -print -quit)" ]; then
  if ! bash "$V/setup.sh" >"$V/evidence/.setup.log" 2>&1; then
    cat "$V/evidence/.setup.log"
    echo "VIOLATION property=$ID replay=$V/evidence/.setup.log"
    exit 1
  fi
fi
export VERIF_TIER="$TIER" GOMEMLIMIT=12GiB
timeout 840 "$V/bin/chk" run "$ID" "$REPO" "$V" "$TIER"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "the analyser ended with status $rc"
  echo "VIOLATION property=$ID replay=$V/evidence/$ID.json"
  exit 1
fi
exit $rc
