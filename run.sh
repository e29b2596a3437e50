#!/bin/bash
# Builds the simulator from /repo's working tree (both profiles) and runs it.
#   run.sh build | check PROP | replay FILE | selftest [RUNS]
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_INCREMENTAL
target="$here/sim/target"
mkdir -p "$target"
# what the binaries are made from
state() {
  { rustc -vV; cd / && find /repo "$here/sim" \( -name target -o -name .git \) -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum
}
build() {
  local now; now="$(state)"
  if [ -x "$target/release/btsim" ] && [ -x "$target/ship/btsim" ] && [ "$(cat "$target/.state" 2>/dev/null)" = "$now" ]; then return; fi
  rm -f "$target/.state"
  # cargo trusts modification times; the tree under check is always compiled again
  rm -rf "$target"/release/.fingerprint/raw-btree-* "$target"/release/.fingerprint/btsim-* \
         "$target"/ship/.fingerprint/raw-btree-* "$target"/ship/.fingerprint/btsim-*
  local a b
  ( cd "$here/sim" && cargo build --offline -q --profile release --target-dir "$target" ) & a=$!
  ( cd "$here/sim" && cargo build --offline -q --profile ship --target-dir "$target" ) & b=$!
  wait $a; local ra=$?
  wait $b; local rb=$?
  if [ $ra -ne 0 ] || [ $rb -ne 0 ]; then echo "HARNESS ERROR: the simulator does not build"; exit 2; fi
  [ "$(state)" = "$now" ] && echo "$now" > "$target/.state"
}
exec 9>"$target/.lock"
flock 9
build
flock -u 9
exec 9>&-
[ "${1:-}" = build ] && exit 0
exec "$target/release/btsim" "$@"
