#!/bin/bash
# Builds the simulator against /repo's current working tree (offline). Prints the binary's path.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=$PATH:/root/.cargo/bin:/usr/local/cargo/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
# rc_slice uses no unstable feature; the simulated Arc and Rc need arbitrary_self_types to be usable as `self: Arc<Self>`.
export RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zcrate-attr=feature(arbitrary_self_types) --cap-lints allow"
export CARGO_TARGET_DIR=${VERIF_TARGET:-$here/sim/target}
cd "$here/sim/harness" || exit 3
if ! cargo build --offline --release >"$here/out/build.log.$$" 2>&1; then
    cat "$here/out/build.log.$$" >&2
    rm -f "$here/out/build.log.$$"
    exit 3
fi
rm -f "$here/out/build.log.$$"
echo "$CARGO_TARGET_DIR/release/rcsim"
