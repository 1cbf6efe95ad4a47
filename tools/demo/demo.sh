#!/bin/bash
# Builds the program of /repo with the stand-ins beside this file and runs one scenario on it.
# exit 0: behaves as promised; 1: does not; 3: could not be built
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 3
trap 'rm -rf "$scratch"' EXIT
cp -r "$here/crate" "$scratch/crate" || exit 3
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$scratch/target" HOME=/root
export PATH=/root/.cargo/bin:$PATH
cargo build --offline --manifest-path "$scratch/crate/Cargo.toml" >"$scratch/log" 2>&1 || { tail -40 "$scratch/log"; exit 3; }
"$scratch/target/debug/obv2-demo"
rc=$?
[ $rc -eq 0 ] && { echo "demo: ok"; exit 0; }
echo "demo: the promise is broken"
exit 1
