#!/bin/bash
# builds this crate the way tools/check.py builds the contract, and runs it
cd "$(dirname "$0")"
T=${VERIF_TARGET:-../.target}
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$T/selftest RUSTC_WRAPPER=$(realpath $T/mirpass/release/mirpass)
cargo build --release --offline -q || exit 2
$CARGO_TARGET_DIR/release/sumtree_orderbook
