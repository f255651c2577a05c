#!/bin/bash
# Builds the check of derived implementations against the current tree of /repo.
# Exit: 0 built, 1 the crate under test builds but some declaration does not, 2 otherwise.
cd "$(dirname "$0")" || exit 2
export RUSTFLAGS="-Awarnings"
python3 gen.py >src/gen.new || exit 2
cmp -s src/gen.new src/gen.rs || cp src/gen.new src/gen.rs
rm -f src/gen.new
cargo build --release --offline --locked -p dumpster -p lite || exit 2
cargo build --release --offline --locked || exit 1
