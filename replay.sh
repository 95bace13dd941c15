#!/bin/bash
# replay.sh FILE: re-executes a replay file against /repo's working tree; exit 1 if it still fails
here=$(cd "$(dirname "$0")" && pwd); f=$1
id=$(sed -n '1s/^# property \(C[0-9]*\).*/\1/p' "$f"); v=$(sed -n '1s/.*\[variant \([a-z/_]*\)\].*/\1/p' "$f")
v=${v:-asan/pbt_c}
bash "$here/pbt/build.sh" "$here/build" "$here/build/$v" || exit 2
PBT_FULL=1 "$here/build/$v" replay "$f" 120
