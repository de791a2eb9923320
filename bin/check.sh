#!/bin/bash
# usage: bin/check.sh <property> [quick|thorough]   decides one property on the working tree of /repo
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=readonly -buildvcs=false" GOTOOLCHAIN=local GOPROXY=off GOWORK=off
export VERIF_DIR="$here" REPO="${REPO:-/repo}"
tier="${2:-${VERIF_TIER:-quick}}"
tmp="$(mktemp -d /tmp/verif-run-XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/runner" && go build -o "$tmp/vrun" .) || { echo "runner does not build"; exit 2; }
export VERIF_SCRATCH="$tmp"
"$tmp/vrun" "$1" "$tier"
rc=$?
exit $rc
