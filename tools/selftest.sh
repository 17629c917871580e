#!/bin/bash
# selftest.sh [N] [CHECK...]: a run depends on its seed only. The digests of the first N runs of
# each check must be the same with other numbers of workers and other hash seeds.
cd "$(dirname "$0")/.." || exit 2
N=${1:-60}
shift
CHECKS=${*:-$(seq -f "C%02g" 1 17)}
bad=0
for c in $CHECKS; do
    a=$(PYTHONHASHSEED=0 ./run_check.sh digests "$c" "$N" 8 | grep DIGEST)
    b=$(PYTHONHASHSEED=12345 ./run_check.sh digests "$c" "$N" 3 | grep DIGEST)
    n=$(echo "$a" | wc -l)
    d=$(diff <(echo "$a") <(echo "$b") | grep -c '^<')
    echo "$c runs=$n different=$d"
    [ "$d" = 0 ] || bad=1
done
exit $bad
