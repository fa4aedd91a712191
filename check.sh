#!/bin/bash
# check.sh ID TIER: build bubbler and the verifier from the current trees and run one check.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=readonly -buildvcs=false" GOWORK=off GONOSUMDB=* GOFLAGS
export DOTNET_CLI_TELEMETRY_OPTOUT=1 DOTNET_NOLOGO=1
export BB_REPO=${BB_REPO:-/repo} BB_VERIF=$here VERIF_TIER=${2:-quick}
tmp=$(mktemp -d /tmp/bbv.XXXXXXXX) || exit 2
case "$tmp" in /tmp/bbv.*) ;; *) exit 2;; esac
trap 'rm -rf "$tmp"' EXIT
export BB_SCRATCH=$tmp/scratch BB_BIN=$tmp/bubbler TMPDIR=$tmp/tmp
mkdir -p "$BB_SCRATCH" "$TMPDIR"
if ! (cd "$BB_REPO" && go build -o "$BB_BIN" .) >"$tmp/build.log" 2>&1; then
  echo "bubbler does not build:"; cat "$tmp/build.log"; export BB_BUILD_FAILED=$tmp/build.log
fi
if ! (cd "$here/tool" && GOFLAGS="-mod=mod -buildvcs=false" go build -o "$tmp/check" ./cmd/check) ; then
  echo "the verifier does not build"; exit 2
fi
"$tmp/check" "$1" "$VERIF_TIER"
exit $?
