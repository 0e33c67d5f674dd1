#!/bin/bash
# dump.sh OUT [cargo features]: dump the monomorphised MIR of /repo's current tree
d=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true BITCOIND_SKIP_DOWNLOAD=1 ELECTRSD_SKIP_DOWNLOAD=1
export MIRDUMP_OUT=$1 MIRDUMP_CRATES=bdk_sp,dleq,indexer,bdk_sp_oracles MIRDUMP_EXTRA="${MIRDUMP_EXTRA:-<std::result::Result<;<std::option::Option<;std::option::Option::;std::result::Result::;*sha256t::Hash;*_hashes::Hash>::hash;std::cmp::min_by;std::cmp::max_by;core::bool::;std::mem::;core::option::;core::result::;<T as std::convert::;*std::ops::FromResidual;=<T as std::convert::Into<;std::cmp::}"
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
export RUSTC_WORKSPACE_WRAPPER=$d/.cache/mirdump CARGO_INCREMENTAL=0
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=on -Coverflow-checks=on --cap-lints=allow"
cd "$d/roots" || exit 2
touch src/lib.rs
exec cargo +nightly check --offline --locked --target-dir "$d/.cache/mirt" ${2:+--features $2}
