#!/bin/bash
here="$(cd "$(dirname "$0")/.." && pwd)"
. /opt/vp/env.sh
export VERIF_DIR="$here"
cd "$here/runner" && go run . manifest
