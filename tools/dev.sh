#!/bin/bash
# Development helper: incremental build (time stamps trusted) and run.  usage: tools/dev.sh <ID> [tier]
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/tools/env.sh"
(cd "$here/harness" && cargo build --release --offline 2>&1 | grep -E '^(error|warning: unused)' -A 12 | head -${LINES_MAX:-60})
exec "$here/harness/target/release/azv" run "$1" "${2:-quick}"
