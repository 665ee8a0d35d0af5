#!/bin/bash
# usage: check.sh <PROPERTY-ID> [quick|thorough]
# Builds the monitor for one property against /repo's current working tree and runs it.
# exit 0: held on everything observed; 1: VIOLATION printed; 2: no verdict (build failure / too few observations).
ID="$1"; export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"; export VERIF_SEED="${VERIF_SEED:-1}"
. /opt/vp/env.sh
dir=$(echo "$ID" | tr 'A-Z' 'a-z')
cd /verif/harness || exit 2
race=""
[ -f "cmd/$dir/RACE" ] && race="-race"
tmp=$(mktemp -d /tmp/vhbin.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
if ! go build $race -o "$tmp/$dir" "./cmd/$dir" >"$tmp/build.log" 2>&1; then
  echo "BUILD FAILED for $ID"; tail -40 "$tmp/build.log"; exit 2
fi
"$tmp/$dir"
exit $?
