#!/bin/bash
# Build the simulator with the program under test from /repo's working tree.
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
export CARGO_TARGET_DIR="${DSIM_TARGET:-$here/target}"
export RUSTC_WRAPPER="$here/engine/rustc-wrap.sh"
export RUSTFLAGS="--cfg=rustix_use_libc"
export CARGO_NET_OFFLINE=true
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUST_BACKTRACE
cd "$here/engine" || exit 2
mkdir -p "$CARGO_TARGET_DIR"
log="$CARGO_TARGET_DIR/build.log"
if ! cargo build --offline --locked -q -p dsim >"$log" 2>&1; then
    grep -E "^error" -A8 "$log" | head -60 >&2
    echo "dsim: build failed (see $log)" >&2
    exit 2
fi
