#!/bin/bash
# replay.sh FILE [-v]: builds the program of a replay file from the current tree and replays it twice
here=$(cd "$(dirname "$0")" && pwd)
prog=$(sed -n 's/^# program //p' "$1")
"$here"/build.sh "$prog" "$here/drivers/$prog.cpp" || exit 3
for k in 1 2; do "${VERIF_BUILD:-$here/build}/$prog" replay --file "$1" ${2:+-v 1}; done
