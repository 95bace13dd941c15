#!/bin/bash
# triage.sh VARIANT CASES SECONDS SEED ID... : list the kinds of failures per property
v=$1 n=$2 s=$3 seed=$4; shift 4
for id in "$@"; do echo "== $id"; /verif/build/$v/pbt_c run $id --tier quick --seed $seed --cases $n --seconds $s --keep-going --replays /tmp/r 2>&1 | cut -c1-${W:-420}; done
