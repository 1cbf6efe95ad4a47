#!/bin/bash
# build.sh [PROGRAM...]: builds the harness from /repo's current tree (all of it without arguments).
# Cargo goes by modification times; a content hash makes sure that a tree restored with old times
# is rebuilt as well.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-$here/.target}
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9
hash=$(cd /repo && find programs/openbook-v2/src lib/client/src idl ts/client/src -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)
if [ "$(cat "$CARGO_TARGET_DIR/.srchash" 2>/dev/null)" != "$hash" ]; then
  find "$CARGO_TARGET_DIR/debug/.fingerprint" -maxdepth 1 \( -name 'openbook-v2-*' -o -name 'obv2-*' \) -exec rm -rf {} + 2>/dev/null
  rm -f "$CARGO_TARGET_DIR/.srchash"
fi
# the programs that need the Rust client as a whole are a package of their own: a client that does not
# build leaves the others alone
own=() bins=()
for b in "$@"; do
  case $b in obv2-net) own=(yes) ;; *) bins+=(--bin "$b") ;; esac
done
build() {
  local out
  out=$(cargo build --offline --manifest-path "$@" 2>&1) && return 0
  echo "$out" | grep -E '^error' -A 12 | head -60 >&2
  exit 1
}
if [ $# -eq 0 ] || [ ${#bins[@]} -gt 0 ]; then build "$here/harness/Cargo.toml" "${bins[@]}"; fi
if [ $# -eq 0 ] || [ ${#own[@]} -gt 0 ]; then build "$here/harness/net/Cargo.toml"; fi
echo "$hash" >"$CARGO_TARGET_DIR/.srchash"
exit 0
