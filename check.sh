#!/bin/bash
# check.sh ID [quick|thorough]: decide one property on /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
. "$here/env.sh"
"$here/build.sh" >/dev/null || { echo "could not build the analyzer" >&2; exit 2; }
exec "$here/bin/analyzer" -repo "${VERIF_REPO:-/repo}" -verif "$here" -prop "$id" -tier "$tier"
