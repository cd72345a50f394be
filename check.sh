#!/bin/bash
# Usage: check.sh <property> quick|thorough
# Builds the harness against /repo's working tree, runs the workloads and monitors of the property,
# writes evidence/<property>.json. Exit codes: 0 - held on everything explored, 1 - violated (a VIOLATION line
# is printed), other - no answer.
set -u
cd "$(dirname "$0")"
PROP=$1
TIER=${2:-quick}
SEED=${VERIF_SEED:-1}
case $TIER in
    thorough) SECS=${VERIF_SECS:-600} ;;
    *) SECS=${VERIF_SECS:-$([ "$PROP" = C15 ] && echo 100 || echo 35)} ;;
esac
export PATH=$PATH:/root/.cargo/bin:/usr/local/cargo/bin
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS RUST_LOG CARGO_TARGET_DIR CARGO_PROFILE_DEV_DEBUG
mkdir -p evidence replays
rm -f "/verif/evidence/$PROP.json"
if [ "$PROP" = C15 ]; then
    exec python3 tools/c15.py "$TIER" "$SEED" "$SECS"
fi
(cd harness && cargo build --offline --quiet 2>&1) >/tmp/vp-build-$$.log || {
    cat /tmp/vp-build-$$.log
    echo "the harness does not build"
    rm -f /tmp/vp-build-$$.log
    exit 2
}
rm -f /tmp/vp-build-$$.log
exec harness/target/debug/harness check "$PROP" --tier "$TIER" --seed "$SEED" --secs "$SECS" \
    --out "/verif/evidence/$PROP.json" --replays /verif/replays
