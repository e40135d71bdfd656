#!/bin/bash
# Builds the drivers from /repo's working tree; every check builds again what changed.
cd "$(dirname "$0")/../harness" || exit 2
export CARGO_TARGET_DIR="$PWD/../target" CARGO_NET_OFFLINE=true RUSTFLAGS=--cap-lints=allow
cargo build --offline --quiet --locked
