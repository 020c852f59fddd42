#!/bin/sh
# Refreshes baseline/src: the sources as last judged, used by run.py only to stand in for a file
# that does not compile (see run.py, `shadow_build`).
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/baseline"
rsync -a --delete /repo/src/ "$here/baseline/src/" 2>/dev/null || { rm -rf "$here/baseline/src"; cp -r /repo/src "$here/baseline/src"; }
