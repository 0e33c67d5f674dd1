#!/bin/bash
# builds the small program beside this script against /repo and runs it
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
export CARGO_NET_OFFLINE=true BITCOIND_SKIP_DOWNLOAD=1 ELECTRSD_SKIP_DOWNLOAD=1 CARGO_INCREMENTAL=0 RUSTFLAGS=--cap-lints=allow CARGO_TARGET_DIR="$w/t"
cp -r "$d/Cargo.toml" "$d/Cargo.lock" "$d/src" "$w/" && cd "$w" && cargo build --offline --locked -q && "$w/t/debug/demo"
