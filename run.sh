#!/bin/bash
# run.sh <property> <quick|thorough> [engine flags]: builds the engine if needed and runs one check.
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
here=$(cd "$(dirname "$0")" && pwd)
bin=$here/engine/bin/engine
if [ ! -x "$bin" ] || [ -n "$(find "$here/engine" -maxdepth 1 \( -name '*.go' -o -name 'go.*' \) -newer "$bin" -print -quit)" ]; then
  mkdir -p "$here/engine/bin"
  (cd "$here/engine" && GOFLAGS=-mod=mod CGO_ENABLED=0 go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "engine does not build"; exit 3; }
fi
[ "$1" = build ] && exit 0
prop=$1; tier=$2; shift 2
exec "$bin" check "$prop" --tier "$tier" --verif "$here" --repo "${REPO:-/repo}" "$@"
