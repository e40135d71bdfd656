#!/bin/bash
# Builds the demonstration against the working tree in the current directory and runs it.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$T"' EXIT
cp -r "$HERE/Cargo.toml" "$HERE/Cargo.lock" "$HERE/shim" "$HERE/wrap" "$HERE/demo" "$T/"
sed -i "s#\"/repo/#\"$PWD/#" "$T"/wrap/*/Cargo.toml
cd "$T" || exit 99
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true RUSTFLAGS=--cap-lints=allow
cargo build --offline --quiet || exit 98
ulimit -v 4000000
timeout 60 "$T/target/debug/demo" > /dev/null
