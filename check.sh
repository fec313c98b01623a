#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds the model checker against /repo's working tree and decides ID.
# Exit 0: held on everything explored; 1: violation; 2: the check could not be run.
cd "$(dirname "$0")" || exit 2
export PATH="${CARGO_HOME:-$HOME/.cargo}/bin:/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export MC_ROOT="$PWD" CARGO_TARGET_DIR="$PWD/mc/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
mkdir -p out
build() {
    log=$(mktemp)
    (cd mc && cargo "$@") >"$log" 2>&1
    rc=$?
    if [ $rc -ne 0 ] && [ -z "$MAYBE" ]; then
        echo "the model checker does not build against /repo:" >&2
        grep -A12 '^error' "$log" | head -60 >&2
    fi
    rm -f "$log"
    return $rc
}
bin="$CARGO_TARGET_DIR/release/mc"
if [ "$1" = C23 ] || [ "$1" = C28 ] || [ "$1" = C31 ] || [ "$1" = C32 ]; then
    # these properties count the basic blocks executed: those of the standard library too,
    # where it can be rebuilt, the bytes moved, the stack and the memory
    export RUSTFLAGS="-C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc --cfg count_moves"
    profile=release
    # without an optimiser that turns calls into loops
    [ "$1" = C31 ] && profile=plain
    target=x86_64-unknown-linux-gnu
    export CARGO_TARGET_DIR="$PWD/mc/target-std"
    bin="$CARGO_TARGET_DIR/$target/$profile/mc"
    if ! MAYBE=1 build +nightly build --profile $profile --offline -Zbuild-std=std,panic_unwind --target $target; then
        export CARGO_TARGET_DIR="$PWD/mc/target-blocks"
        bin="$CARGO_TARGET_DIR/$profile/mc"
        build build --profile $profile --offline || exit 2
    fi
else
    build build --release --offline || exit 2
fi
if [ -n "$1" ]; then
    exec "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}"
fi
