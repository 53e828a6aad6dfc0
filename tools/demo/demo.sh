#!/bin/bash
# builds the real program from /repo into a small host (host/) and runs demo.py against it
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 2
trap 'rm -r -- "${scratch:?}"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS
bin=$(cat "$here/host/use")
cp -r "$here/host" "$scratch/host" || exit 2
(cd "$scratch/host" && CARGO_TARGET_DIR=$scratch/target cargo build --locked --offline --bin "$bin" >"$scratch/log" 2>&1) || { tail -30 "$scratch/log"; exit 2; }
timeout 200 python3 "$here/demo.py" "$scratch/target/debug/$bin"
