#!/bin/sh
# tools/soak.sh FROM TO PID...: quick checks with many seeds; prints what is not quiet
f=$1; t=$2; shift 2
cd "$(dirname "$0")/.."
for s in $(seq $f $t); do for p in "$@"; do
  o=$(bin/check $p --seed $s 2>&1) || { echo "== $p seed $s"; echo "$o" | cut -c1-1500; }
done; done
echo soak done
