#!/bin/bash
# shr.sh VARIANT ID SEED INDEX : shrink one generated case
B=/verif/build/$1/pbt_c; f=/tmp/r/$2-$3-$4.case; $B gen $2 $3 $4 > $f; $B shrink $f ${5:-60} | cut -c1-700 | tee $f.min
