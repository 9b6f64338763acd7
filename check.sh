#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Decides one property of /repo's current working tree by static analysis.
cd "$(dirname "$0")" || exit 2
V=$(pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build} HOME=${HOME:-/root} GOWORK=off
unset GOOS GOARCH
export VERIF_DIR="$V"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
if ! bash "$V/build.sh" >"$V/build.log" 2>&1; then
  cat "$V/build.log"
  echo "the analyser does not build"
  exit 2
fi
exec "$V/bin/sa" check "$id" "$tier"
