#!/bin/bash
# usage: run.sh PROPERTY [tier]   -- decides one property on /repo's current source
here="$(cd "$(dirname "$0")/.." && pwd)"
tier="${2:-${VERIF_TIER:-quick}}"
case "$1" in
C34|C35|C39|C40|C41)
  # the Python parts of the repository
  exec env REPO="${REPO:-/repo}" python3 -B "$here/checker_py/check.py" "$1" "$tier" ;;
esac
if [ ! -x "$here/bin/crlitecheck" ]; then "$here/tools/build.sh" >&2 || exit 2; fi
exec "$here/bin/crlitecheck" -repo "${REPO:-/repo}" -verif "$here" -tier "$tier" "$1"
