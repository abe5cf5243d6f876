#!/bin/bash
# check.sh <property id> [--replay FILE]: builds the engine from /verif/engine
# and decides the property on /repo's working tree. VERIF_TIER selects the tier.
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off CGO_ENABLED=0
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME="${HOME:-/root}"
prop="$1"; shift
mkdir -p "$here/build"
(cd "$here/engine" && go build -o "$here/build/engine" .) || { echo "engine build failed" >&2; exit 2; }
tier="${VERIF_TIER:-quick}"
args=()
if [ "$1" = "--replay" ]; then args=(-replay "$2"); shift 2; fi
exec "$here/build/engine" -prop "$prop" -tier "$tier" -repo "${VERIF_REPO:-/repo}" -verif "$here" "${args[@]}" "$@"
