#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild the simulator from /repo's tree and search.
V=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$V/.build"
( flock 9; bash "$V/sim/build.sh" >"$V/.build/build.log" 2>&1 ) 9>"$V/.build/lock" || { cat "$V/.build/build.log" >&2; exit 2; }
exec "$V/.build/driver" -verif "$V" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
