#!/bin/bash
# Nothing is compiled ahead: the simulator is Jython source, and the library is
# imported from /repo's working tree by every run.  This only makes sure that
# the interpreter is there and that a simulation runs.
cd "$(dirname "$0")" || exit 1
mkdir -p out evidence
python3 tools/mkprops.py >/dev/null || exit 1
scratch=$(mktemp -d) || exit 1
DST_SCRATCH=$scratch timeout 120 bash tools/jy.sh dst/main.py hashes C16 1 2 >"$scratch/log" 2>&1
rc=$?
grep -c '"k": "hash"' "$scratch/log" || { cat "$scratch/log"; rc=1; }
rm -rf "$scratch"
exit $rc
