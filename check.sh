#!/bin/bash
# check.sh PROPERTY [quick|thorough] [more symgo flags]
here=$(cd "$(dirname "$0")" && pwd)
p=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
"$here/setup.sh" || exit 2
exec "$here/bin/symgo" check -verif "$here" -repo "${VERIF_REPO:-/repo}" -prop "$p" -tier "$tier" "$@"
