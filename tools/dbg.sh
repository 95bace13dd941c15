#!/bin/bash
# dbg.sh CASE GDBSCRIPT : run one case in gdb with an unoptimised build in /tmp/dbg
mkdir -p /tmp/dbg; R=${REPO:-/repo}
for f in $R/src/*.c; do o=/tmp/dbg/$(basename $f .c).o; [ $o -nt $f ] || gcc -g3 -O0 -w -DCAL_VERIF_HOOKS -DPAGE_SIZE=4096 -I$R/src -c $f -o $o & done; wait
P=/verif/pbt; for f in main_c model ops frame memwrap; do o=/tmp/dbg/$f.oo; [ $o -nt $P/$f.cpp ] || g++ -std=c++17 -g -O0 -w -DCAL_VERIF_HOOKS -DPAGE_SIZE=4096 -I$R/src -c $P/$f.cpp -o $o & done; wait
g++ -o /tmp/dbg/pbt /tmp/dbg/*.o /tmp/dbg/*.oo -lm -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=aligned_alloc
PBT_NOASLR=1 gdb -q -batch -x $2 --args /tmp/dbg/pbt exec $1 2>&1 | grep -v "^\[\|^Warning: I"
