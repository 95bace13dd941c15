#!/bin/bash
# Builds the harnesses from /repo's working tree into DIR (default /verif/build). usage: build.sh [DIR]
set -e
here=$(cd "$(dirname "$0")" && pwd); repo=${REPO:-/repo}; out=${1:-$here/../build}
mkdir -p "$out"
make -s -j8 -f "$here/Makefile" HERE="$here" REPO="$repo" OUT="$out" ${2:-all}
