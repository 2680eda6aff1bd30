#!/bin/bash
# Builds the static analyser from the committed sources, offline.
set -e
V="$(cd "$(dirname "$0")" && pwd)"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
mkdir -p "$V/bin" "$V/evidence"
cd "$V/checker"
go build -o "$V/bin/.chk.$$" . && mv -f "$V/bin/.chk.$$" "$V/bin/chk"
