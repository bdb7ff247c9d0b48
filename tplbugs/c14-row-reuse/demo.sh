#!/bin/bash
# Builds the generator of the working tree in the current directory, runs it on
# the project in p/ beside this file (every .txt is dropped) and runs its main.go.
set -u
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
unset GOROOT
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
(cd "$R/cmd/sqlgen" && GOFLAGS=-buildvcs=false go build -o "$T/sqlgen" .) || exit 3
mkdir "$T/p" && cd "$D/p" || exit 3
find . -type f | while read -r f; do
	mkdir -p "$T/p/$(dirname "$f")" && cp "$f" "$T/p/${f%.txt}"
done
cd "$T/p" || exit 3
cat > go.mod <<MOD
module demo

go 1.24.0

require github.com/si3nloong/sqlgen v0.0.0

replace github.com/si3nloong/sqlgen => $R
MOD
export GOWORK=off
GOFLAGS=-buildvcs=false "$T/sqlgen" -c sqlgen.yml || { echo "the generator failed"; exit 1; }
GOFLAGS="-mod=mod -buildvcs=false" go run .
