#!/bin/bash
# builds the conformance harness against /repo's working tree: build.sh entry|direct
set -e
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=${TBC_TARGET:-/verif/.build/target}
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
cd "$(dirname "$0")"
exec cargo build --locked --offline --bin "$1"
