#!/bin/bash
# replay.sh FILE [-v]: repeat one recorded execution against /repo's current tree.
V=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$V/.build"
bash "$V/sim/build.sh" >"$V/.build/build.log" 2>&1 || { cat "$V/.build/build.log" >&2; exit 2; }
exec "$V/.build/driver" -verif "$V" -replay "$1" ${2:+-v}
