#!/bin/bash
# Builds the harness, plain and with the sanitizers (the checks do that themselves as well).
set -u
cd "$(dirname "$0")/harness"
export PATH=$PATH:/root/.cargo/bin:/usr/local/cargo/bin
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS RUST_LOG CARGO_TARGET_DIR CARGO_PROFILE_DEV_DEBUG
cargo build --offline --quiet || exit 1
exec python3 ../tools/c15.py build
