#!/bin/bash
# Builds the demonstration against the working tree in the current directory, in a scratch directory, and runs it.
# Exits with 0 if the property holds, nonzero if it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PATH=$PATH:/root/.cargo/bin:/usr/local/cargo/bin CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
scratch=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" >"$scratch/Cargo.toml"
cp "$here/Cargo.lock.in" "$scratch/Cargo.lock"
cp "$here"/*.rs "$scratch/src/"
cd "$scratch" || exit 3
cargo build --offline --quiet 2>"$scratch/log" || { cat "$scratch/log"; exit 3; }
timeout 120 "$scratch/target/debug/demo"
