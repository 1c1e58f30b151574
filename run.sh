#!/bin/bash
# Build the checker if needed and decide one property: run.sh ID [quick|thorough]
set -u
V=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOCACHE=$V/.cache/go GOTELEMETRY=off
export VERIF_DIR=$V
mkdir -p "$V/.cache"
B=$V/.cache/vchk
if [ ! -x "$B" ] || [ -n "$(find "$V/checker" -name '*.go' -newer "$B" -print -quit)" ]; then
	(cd "$V/checker" && go build -o "$B.$$" ./cmd/vchk && mv "$B.$$" "$B") || { echo "cannot build the checker" >&2; exit 3; }
fi
[ "${1:-}" = "" ] && exit 0
exec "$B" "$@"
