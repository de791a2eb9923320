#!/bin/bash
# Builds the runner once, to fail early when the tools are missing; the checks build everything they need themselves.
here="$(cd "$(dirname "$0")/.." && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp="$(mktemp -d /tmp/verif-setup-XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$here/runner" && go build -o "$tmp/vrun" .
