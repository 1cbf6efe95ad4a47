#!/bin/bash
# Decides one property: check.sh <ID> [quick|thorough] [further options of the program]
# Builds the harness together with /repo's current working tree, then runs the search.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property id}
shift
tier=${VERIF_TIER:-quick}
case "${1:-}" in quick | thorough) tier=$1; shift ;; esac
export VERIF_TIER=$tier RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${VERIF_TARGET:-$here/.target}
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replays"
case $id in
C14 | C15 | C25) bins="obv2-data obv2-pbt" ;; # without the inner functions, whole instructions remain
C21) bins="obv2-client obv2-jup" ;;
C22) bins="obv2-net obv2-chain" ;;
C23) bins="obv2-idl obv2-use" ;;
C28 | C29 | C32) bins="obv2-ts" ;;
C30 | C31) bins="obv2-net" ;;
*) bins="obv2-pbt" ;;
esac
if [ "$bins" = obv2-ts ]; then
  export VERIF_TS=$CARGO_TARGET_DIR/ts-client.$$.js
  trap 'rm -f "$VERIF_TS"' EXIT
  node "$here/harness/ts/build.mjs" /repo/ts/client/src "$VERIF_TS" || {
    echo "check.sh: the TypeScript client does not build" >&2
    exit 2
  }
  "$here/tools/build.sh" obv2-ts || exit 2
  "$CARGO_TARGET_DIR/debug/obv2-ts" "$id" "$tier" --evidence "$here/evidence/$id.json" --replay-dir "$here/replays" "$@"
  exit $?
fi
for b in $bins; do
  "$here/tools/build.sh" $b &&
    exec "$CARGO_TARGET_DIR/debug/$b" "$id" "$tier" --evidence "$here/evidence/$id.json" --replay-dir "$here/replays" "$@"
done
echo "check.sh: the harness does not build against /repo" >&2
exit 2
