#!/bin/bash
# Builds the harness from /repo's current working tree (dependencies are cached in harness/target).
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/tools/env.sh"
cd "$here/harness" || exit 2
log=$(mktemp /tmp/azv-build.XXXXXX)
# Never trust time stamps for the code under test.
cargo clean --offline --release -p async_zip >"$log" 2>&1
if cargo build --release --offline >>"$log" 2>&1; then
    rm -f "$log"
    exit 0
fi
tail -n 60 "$log"
rm -f "$log"
exit 2
