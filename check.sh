#!/bin/bash
# check.sh PROP TIER: decide one property on /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
. "$here/tools/goenv.sh"
bash "$here/setup.sh" >/dev/null || { echo "cannot build the engine" >&2; exit 2; }
exec "$here/build/engine" -verif "$here" -tier "${2:-quick}" "$1"
