#!/bin/bash
# check.sh Cxx [quick|thorough]: decide one property on /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
prop=$1; tier=${2:-quick}
mkdir -p "$here/.bin" "$here/evidence"
bin="$here/.bin/gv.$$"
trap 'rm -f "$bin"' EXIT
if ! (cd "$here/gv" && go build -o "$bin" .); then
  echo "the verifier does not build" >&2; exit 2
fi
"$bin" -check -prop "$prop" -tier "$tier" -verif "$here"
