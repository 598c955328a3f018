#!/bin/bash
# check.sh <property> [quick|thorough]: build the harness against /repo's working tree and decide one property.
set -u
cd "$(dirname "$0")" || exit 2
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
. ./env.sh
build || exit 2
exec "$HX_BIN" run "$ID" "$TIER" ${3:+"$3"}
