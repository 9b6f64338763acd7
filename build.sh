#!/bin/bash
# builds the analyser from its committed source, offline
cd "$(dirname "$0")/sa" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build} HOME=${HOME:-/root} GOWORK=off
unset GOOS GOARCH
mkdir -p ../bin
go build -o ../bin/sa.$$ . && mv ../bin/sa.$$ ../bin/sa
