#!/bin/bash
# try.sh PATCH CHECK [RUNS]: run a check against a scratch copy of /repo with a patch applied
set -e
W=$(mktemp -d /tmp/try_XXXX)
trap 'rm -rf "$W"' EXIT
git -C /repo archive HEAD lumos data | tar -x -C "$W"
(cd "$W" && patch -p1 -s < "$1")
export DST_REPO="$W" DST_EVIDENCE="$W/ev" DST_REPLAYS="$W/rp"
[ -n "$3" ] && export DST_RUNS="$3"
set +e
"$(dirname "$0")/../run_check.sh" check "$2" --tier=quick 2>&1 | grep -v "^  faults\|^  probes" | cut -c1-400 | head -${LINES_OUT:-25}
echo "exit ${PIPESTATUS[0]}"
