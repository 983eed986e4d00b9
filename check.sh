#!/bin/bash
# check.sh <ID> [quick|thorough]   run one property
# check.sh replay <file>           re-run a saved failing case
# check.sh build                   build the harness against /repo's working tree
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" VERIF_SEED="${VERIF_SEED:-1}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$VERIF_DIR/target" PATH="$PATH:/root/.cargo/bin:/usr/local/bin"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_INCREMENTAL
LOG=$(mktemp) || exit 2
build() { # two builds: with debug assertions, and as users ship it (plus sanitizer)
    cargo build --release --offline --manifest-path harness/Cargo.toml &&
    RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zub-checks=yes -Zsanitizer=address" cargo build --profile plain \
        --target x86_64-unknown-linux-gnu --offline --manifest-path harness/Cargo.toml
}
if ! build >"$LOG" 2>&1; then
    tail -n 40 "$LOG" >&2; rm -f "$LOG"
    echo "ERROR: the harness does not build against /repo" >&2
    exit 2
fi
rm -f "$LOG"
BIN="$CARGO_TARGET_DIR/release/gbcheck"
case "$1" in
    build) exit 0 ;;
    replay) exec "$BIN" replay "$2" ;;
    list) exec "$BIN" list ;;
    *) exec "$BIN" run "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
