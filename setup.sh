#!/bin/bash
# Checks that the verifier builds offline; every check builds it again for itself.
set -e
cd "$(dirname "$0")/tool"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
t=$(mktemp -d /tmp/bbv.XXXXXXXX)
trap 'rm -rf "$t"' EXIT
go build -o "$t/check" ./cmd/check
