#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cat > "$T/o.json" <<J
{"Replace": {"$R/galois/demo_test.go": "$D/demo_test.go.txt"}}
J
go test -vet=off -count=1 -overlay "$T/o.json" -run 'TestDemo' ./galois
