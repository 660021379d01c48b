#!/bin/bash
# bash tools/coverage.sh OUTDIR [ID…]: which lines of /repo do the checks (quick) execute?
# For the development of the checks only; needs some time and space.
cd "$(dirname "$0")/.." || exit 2
out=$1; shift
mkdir -p "$out"
. ./env.sh
bin=$(ls -d ~/.rustup/toolchains/nightly-x86*/lib/rustlib/*/bin | head -1)
export CARGO_TARGET_DIR=$out/target RUSTFLAGS="-C instrument-coverage"
export LLVM_PROFILE_FILE=$out/build-%p.profraw
python3 tools/mirror.py
for h in core full; do cargo build -q --release --offline --manifest-path harness/$h/Cargo.toml; done
cargo build -q --release --offline --manifest-path build/full/Cargo.toml --bin rustomata
for id in ${*:-$(cut -d' ' -f1 tools/kinds)}; do
    kind=$(grep -m1 "^$id " tools/kinds | cut -d' ' -f2)
    LLVM_PROFILE_FILE=$out/$id-%p.profraw timeout 900 "$out/target/release/mc-${kind/cli/full}" "$id" quick
    "$bin/llvm-profdata" merge -o "$out/$id.prof" "$out/$id"-*.profraw
    rm -f "$out/$id"-*.profraw
done
"$bin/llvm-profdata" merge -o "$out/all.prof" "$out"/C*.prof
"$bin/llvm-cov" show "$out/target/release/mc-full" -object "$out/target/release/mc-core" -object "$out/target/release/rustomata" \
    -instr-profile="$out/all.prof" --ignore-filename-regex='harness|registry|rustc|stubs' > "$out/lines.txt"
echo "$out/lines.txt"
