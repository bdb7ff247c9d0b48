#!/bin/bash
# Warms the build cache; every check rebuilds from /repo anyway.
cd "$(dirname "$0")" && . ./env.sh
(cd harness && GOWORK=off go build -mod=readonly -o /dev/null ./cmd/lib && GOWORK=off go build -mod=readonly -o /dev/null ./cmd/gen)
