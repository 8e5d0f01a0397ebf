#!/bin/bash
# bash run.sh <property> [quick|thorough]   |   bash run.sh replay <dir>
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
B=$(mktemp -d /tmp/gtfsvh.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
(cd harness && go build -buildvcs=false -o "$B/harness" .) || { echo "HARNESS ERROR: harness does not build" >&2; exit 2; }
"$B/harness" "$@"
