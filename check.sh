#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property from the current source of /repo.
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
export GEV_VERIF="$here" GEV_REPO="${GEV_REPO:-/repo}"
[ -n "$2" ] && export VERIF_TIER="$2"
if [ ! -x "$here/bin/gevcheck" ]; then
  "$here/build.sh" >&2 || { echo "cannot build the analyser"; exit 2; }
fi
exec "$here/bin/gevcheck" check "$1"
