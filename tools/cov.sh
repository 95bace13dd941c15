#!/bin/bash
# cov.sh OUTDIR CASES ID... : line coverage of the library under the generated cases (gcov)
set -e
out=$1 n=$2; shift 2; mkdir -p $out/o; cd $out/o
for f in /repo/src/*.c; do gcc -g -O0 --coverage -w -DCAL_VERIF_HOOKS -DPAGE_SIZE=4096 -I/repo/src -c $f & done; wait
for f in frame model ops memwrap main_c obj mem wide steady; do g++ -std=c++17 -w -O1 -DPBT_GCOV -DCAL_VERIF_HOOKS -DPAGE_SIZE=4096 -I/repo/src -c /verif/pbt/$f.cpp -o h_$f.o & done; wait
W="-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=aligned_alloc"
g++ $W --coverage cal*.o h_frame.o h_model.o h_ops.o h_memwrap.o h_main_c.o -o ../pbt_c -lm
g++ $W --coverage cal*.o h_frame.o h_memwrap.o h_obj.o -o ../pbt_obj -lm
g++ $W --coverage cal*.o h_frame.o h_memwrap.o h_mem.o -o ../pbt_mem -lm
g++ $W --coverage cal*.o h_frame.o h_memwrap.o h_wide.o -o ../pbt_wide -lm
g++ $W --coverage cal*.o h_frame.o h_memwrap.o h_steady.o -o ../pbt_steady -lm
for id in "$@"; do b=pbt_c; [ $id = C26 ] && b=pbt_steady; [ $id = C25 ] && b=pbt_wide; [ $id = C19 ] && b=pbt_obj; [ $id = C20 ] && b=pbt_mem; ../$b run $id --tier ${TIER:-quick} --seed ${SEED:-1} --cases $n --seconds 60 --keep-going --replays /tmp/r | cut -c1-150; done
cd $out/o; gcov -o . cal*.gcda >$out/sum.txt 2>/dev/null; grep -A1 "^File '/repo/src/.*\.c'" $out/sum.txt | paste - - - | sed "s/File '.repo.src.//" | sort
