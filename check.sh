#!/bin/bash
# check.sh <ID> [--tier quick|thorough] [--replay FILE] : decide one property by simulation of /repo's current tree
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
if [ "$1" = "--build" ]; then exec "$PY" "$here/dst/build.py"; fi
"$PY" "$here/dst/build.py" || { echo "check.sh: build of $DST_REPO failed" >&2; exit 2; }
cd "$here" || exit 2
exec "$PY" -m dst.runner "$@"
