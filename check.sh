#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property against /repo's working tree
# check.sh replay FILE                 run a reported case again, with its trace
# check.sh build                       only build
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
export MC_ROOT="$PWD" HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}"
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
log=$(mktemp) || exit 2
if ! (cd mc && cargo build --release --offline --locked -q) >"$log" 2>&1; then
    cat "$log"; rm -f "$log"
    echo "ERROR: the checker does not build against /repo"
    exit 2
fi
rm -f "$log"
case "$1" in
    build) exit 0 ;;
    replay) exec "$CARGO_TARGET_DIR/release/mc" replay "$2" ;;
    *) exec "$CARGO_TARGET_DIR/release/mc" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
