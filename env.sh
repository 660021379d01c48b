# Sourced by the scripts here.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-nightly-2026-08-21}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export MC_VERIF=$PWD
export CARGO_TARGET_DIR=$PWD/build/target
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_PROFILE_DEV_DEBUG
