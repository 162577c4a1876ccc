#!/bin/bash
# usage: tools/check.sh <property> [quick|thorough]   -- rebuilds the harness against /repo's working tree and runs one property
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/tools/env.sh"
id=$1
tier=${2:-${VERIF_TIER:-quick}}
"$here/tools/build.sh" || { echo "ERROR property=$id harness build failed"; exit 2; }
bin="$here/harness/target/release/azv"
export AZV_VERIF=$here
"$bin" run "$id" "$tier"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
    # No verdict (e.g. a worker was ended by the system): once more with less parallelism.
    AZV_WORKERS=4 "$bin" run "$id" "$tier"
    rc=$?
fi
if [ $rc -eq 0 ] && [ "$id" = C08 ] && [ "$tier" = thorough ]; then
    "$here/tools/fuzz.sh"
    rc=$?
fi
exit $rc
