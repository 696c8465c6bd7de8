#!/bin/bash
# Determinism self-test: the event-log digests of the first N runs of each property must not depend on the process,
# the number of workers or the string hash seed.  usage: tools/determinism.sh [N] [SEEDS] [PROP...]
cd "$(dirname "$0")/.."
N=${1:-24}; SEEDS=${2:-"1 2"}; shift 2 2>/dev/null
PROPS=${*:-$(ls simkit/props | sed -n 's/^p\([0-9]*\)\.py$/P\1/p')}
bad=0; total=0
T=$(mktemp -d /tmp/determ.XXXXXX)
for p in $PROPS; do for s in $SEEDS; do
  k=0
  for conf in "8 0" "3 0" "1 77" "8 random"; do
    set -- $conf
    k=$((k+1))
    SIMKIT_HASHSEED=$2 ./run.sh $p --seed $s --jobs $1 --digest $N > $T/$k 2>/dev/null
  done
  total=$((total + $(wc -l < $T/1)))
  for k in 2 3 4; do if ! diff -q $T/1 $T/$k > /dev/null || [ ! -s $T/1 ]; then echo "$p seed $s: configuration $k differs"; diff $T/1 $T/$k | head -3; bad=1; fi; done
done; echo "$p ok so far=$((1-bad))"; done
echo "runs compared (each in 4 configurations): $total; differences: $bad"
rm -rf "$T"
exit $bad
