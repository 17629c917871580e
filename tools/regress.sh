#!/bin/bash
# regress.sh [COMMIT...]: revert the repairs one by one in a scratch copy, and run the checks
# that are listed for them in known_findings.txt. Each has to report the violation again.
cd "$(dirname "$0")/.." || exit 2
export LINES_OUT=3
F=known_findings.txt
for c in ${*:-$(sed -n 's/^fixed: property=[^ ]* \([0-9a-f]*\).*/\1/p' "$F" | sort -u)}; do
    d=$(mktemp /tmp/regress_XXXX)
    git -C /repo diff "$c" "$c~1" -- lumos > "$d"
    if ! git -C /repo apply --check "$d" 2>/dev/null; then
        echo "$c  later commits changed the same lines: $(git -C /repo log -1 --format=%s "$c")"
        continue
    fi
    for p in $(sed -n "s/^fixed: property=\([^ ]*\) $c.*/\1/p" "$F" | sort -u); do
        echo "$c $p $(tools/try.sh "$d" "$p" | tail -1)  $(git -C /repo log -1 --format=%s "$c")"
    done
done
