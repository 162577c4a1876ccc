#!/bin/bash
# usage: tools/fuzz.sh [runs per process]   -- coverage-guided search for C08 (thorough tier), from generated archives
# exit 0: nothing found, 1: VIOLATION printed, 2: no verdict
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/tools/env.sh"
runs=${1:-2000000}
jobs=8
seed=${VERIF_SEED:-1}
work=$(mktemp -d /tmp/azv-fuzz.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$here/fuzz" || exit 2
export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares --cfg fuzzing -Ccodegen-units=1"
cargo +nightly clean --offline --release --target x86_64-unknown-linux-gnu -p async_zip >/dev/null 2>&1
cargo +nightly build --release --offline --target x86_64-unknown-linux-gnu >"$work/build.log" 2>&1 || { tail -n 40 "$work/build.log"; echo "ERROR property=C08 fuzz build failed"; exit 2; }
unset RUSTFLAGS
bin="$here/fuzz/target/x86_64-unknown-linux-gnu/release/c08"
azv="$here/harness/target/release/azv"
"$azv" corpus "$work/start" 2000
for j in $(seq 1 $jobs); do
    mkdir -p "$work/$j/corpus"
    ( cd "$work/$j" && "$bin" -seed=$((seed * 100 + j)) -runs="$runs" -max_len=$((512 << (j % 4))) -use_value_profile=$((j % 2)) \
        -rss_limit_mb=3500 -timeout=120 -artifact_prefix="$work/$j/found-" -print_final_stats=1 corpus "$work/start" >log 2>&1; echo $? >rc ) &
done
wait
execs=$(cat "$work"/*/log | sed -n 's/^stat::number_of_executed_units: *//p' | paste -sd+ | bc)
inputs=$(cat "$work"/*/log | sed -n 's/^stat::new_units_added: *//p' | paste -sd+ | bc)
found=$(ls "$work"/*/found-* 2>/dev/null | head -1)
python3 - "$here/evidence/C08.json" "${execs:-0}" "${inputs:-0}" <<'P'
import json, sys
p, execs, inputs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
try:
    e = json.load(open(p))
except OSError:
    sys.exit()
e.setdefault("coverage", {})["coverage_guided"] = {"executions": execs, "inputs_kept_for_new_coverage": inputs}
json.dump(e, open(p, "w"), indent=1)
P
echo "C08 coverage-guided: ${execs:-0} executions, ${inputs:-0} inputs kept"
if [ -n "$found" ]; then
    mkdir -p "$here/replays"
    out="$here/replays/C08-fuzz-$(sha1sum "$found" | cut -c1-12).json"
    "$bin" -minimize_crash=1 -runs=20000 -exact_artifact_path="$work/min" "$found" >/dev/null 2>&1
    [ -s "$work/min" ] && found="$work/min"
    "$azv" wrap "$found" "$out"
    # Only what the oracle confirms outside the fuzzer counts.
    timeout 600 "$azv" replay "$out"
    rc=$?
    [ $rc -eq 0 ] && { echo "ERROR property=C08 not reproduced: $out"; exit 2; }
    [ $rc -ne 1 ] && echo "VIOLATION property=C08 replay=$out"
    exit 1
fi
grep -qv '^0$' "$work"/*/rc && { echo "ERROR property=C08 a fuzzing process ended abnormally"; exit 2; }
exit 0
