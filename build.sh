#!/bin/bash
# Builds the analyser from its committed sources into bin/ (git-ignored).
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
mkdir -p "$here/bin"
cd "$here/tools/gnmicheck" || exit 1
exec go build -o "$here/bin/gnmicheck" .
