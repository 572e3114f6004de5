#!/bin/bash
# Warms the build cache (verifier, race runtime); the checks also work without it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
mkdir -p "$here/.bin" "$here/evidence"
(cd "$here/gv" && go build -o "$here/.bin/gv.setup" . && rm -f "$here/.bin/gv.setup")
