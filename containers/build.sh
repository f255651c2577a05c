#!/bin/bash
# Builds the check of the standard containers against the current tree of /repo.
# Exit: 0 built, 1 the crate under test builds but a covered type is not Collectable, 2 otherwise.
cd "$(dirname "$0")" || exit 2
export RUSTFLAGS="-Awarnings"
cargo build --release --offline --locked -p dumpster -p lite || exit 2
cargo build --release --offline --locked || exit 1
