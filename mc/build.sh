#!/bin/bash
# build.sh [unsized]: builds the model checker against the current tree of /repo; with "unsized",
# with the nightly toolchain and the crate's feature for pointers to unsized types.
cd "$(dirname "$0")" || exit 2
export RUSTFLAGS="--cfg dumpster_mc -Awarnings"
if [ "$1" = unsized ]; then
    export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
    export CARGO_TARGET_DIR="$PWD/target/unsized"
    cargo build --release --offline --locked --features unsized || exit 2
else
    cargo build --release --offline --locked || exit 2
fi
