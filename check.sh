#!/bin/bash
# bash check.sh ID [quick|thorough] [--only SUITE CASE]
# Builds what the check of property ID needs from /repo's working tree and runs it.
# Exit 0: the property held; 1: VIOLATION; anything else: the check itself failed.
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=$1
unset MC_SUITE
python3 tools/mirror.py || exit 2
kind=$(grep -m1 "^$id " tools/kinds | cut -d' ' -f2)
[ -n "$kind" ] || { echo "unknown property $id" >&2; exit 2; }
log=build/build-$kind.$$.log
# the checks of the programs need the programs as well
programs() { [ "$kind" != cli ] || cargo build --release --offline --manifest-path build/full/Cargo.toml --bin rustomata; }
harness=${kind/cli/full}
if ! { programs && cargo build --release --offline --manifest-path "harness/$harness/Cargo.toml"; } > "$log" 2>&1; then
    grep -E '^(error|warning: unused)' -A 12 "$log" | head -n 100 >&2
    rm -f "$log"
    echo "the harness does not build" >&2
    exit 2
fi
rm -f "$log"
exec "build/target/release/mc-$harness" "$@"
