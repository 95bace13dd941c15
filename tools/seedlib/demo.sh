#!/bin/bash
# Builds demo.c against the library that is built in the current directory and runs it in a scratch directory.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
lib=$(find _build -name libcal.a | head -1)
gcc -w -O1 -Isrc -I"$d" "$d/demo.c" "$lib" -lm -o "$t/demo" || { rm -f "$t/demo"; rmdir "$t"; exit 2; }
(cd "$t" && timeout 120 ./demo "$t/scratch"); rc=$?
rm -f "$t/demo" "$t/scratch"; rmdir "$t"
exit $rc
