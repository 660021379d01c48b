#!/bin/bash
# Builds the harnesses once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p build evidence replays
python3 tools/mirror.py || exit 2
rc=0
for kind in core full; do
    [ -d harness/$kind ] || continue
    cargo build --release --offline --manifest-path harness/$kind/Cargo.toml 2>&1 | tail -n 3
    [ "${PIPESTATUS[0]}" = 0 ] || rc=2
done
cargo build --release --offline --manifest-path build/full/Cargo.toml --bin rustomata 2>&1 | tail -n 3
[ "${PIPESTATUS[0]}" = 0 ] || rc=2
exit $rc
