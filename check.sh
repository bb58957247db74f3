#!/bin/bash
# check.sh ID [quick|thorough]: build the checker from /verif/checker when it is
# stale and decide property ID on the current source of /repo.
cd "$(dirname "$0")" || exit 2
V=$PWD
id=$1; tier=${2:-${VERIF_TIER:-quick}}
./build.sh >&2 || exit 2
exec "$V/bin/verifchecker" -property "$id" -repo "${VERIF_REPO:-/repo}" -verif "$V" -tier "$tier"
