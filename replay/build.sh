#!/bin/bash
# build the replay harness against /repo's current tree -> .cache/rt/debug/replay
d=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true BITCOIND_SKIP_DOWNLOAD=1 ELECTRSD_SKIP_DOWNLOAD=1 CARGO_INCREMENTAL=0 RUSTFLAGS="--cap-lints=allow"
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
cd "$d" && exec cargo build --offline --locked --target-dir "$d/../.cache/rt"
