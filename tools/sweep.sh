#!/bin/bash
# sweep.sh SEED SECS [PROPS...]: every property from another seed, from copies of the current binaries.
SEED=$1 SECS=$2; shift 2
ROOT=$(cd "$(dirname "$0")/.." && pwd)
D=/tmp/sweep; mkdir -p $D
B=$($ROOT/build.sh default) && cp $B $D/viasim || exit 2
B=$($ROOT/build.sh pre-rfc8301) && cp $B $D/viasim-pre || exit 2
[ $# = 0 ] && set -- $(awk '/^C/{print $1}' $ROOT/budget.txt)
for p in "$@"; do
  $D/viasim run --prop $p --seed $SEED --jobs ${JOBS:-8} --tier thorough --runs 100000000 --secs $SECS --root $D --evidence $D/$p.json 2>&1 | tail -3
  if awk -v p=$p '$1==p && $4>0{f=1} END{exit !f}' $ROOT/budget.txt; then
    $D/viasim-pre run --prop $p --seed $SEED --jobs ${JOBS:-8} --tier thorough --runs 100000000 --secs $SECS --root $D --evidence $D/$p-pre.json 2>&1 | tail -3
  fi
done
