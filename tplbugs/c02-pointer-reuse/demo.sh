#!/bin/bash
# Builds main.go.txt against the working tree in the current directory and runs it.
set -u
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-buildvcs=false
unset GOWORK GOROOT
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cp "$D/main.go.txt" "$T/main.go"
cat > "$T/go.mod" <<MOD
module demo

go 1.24.0

require github.com/si3nloong/sqlgen v0.0.0

replace github.com/si3nloong/sqlgen => $R
MOD
cd "$T" && GOWORK=off go run -mod=mod .
