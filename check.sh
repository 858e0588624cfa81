#!/bin/bash
# check.sh ID [arguments of sim]: builds the harness against /repo's working tree and runs the
# check of one property. Exit 0: held; 1: VIOLATION; anything else: the check could not run.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: check.sh ID}
shift
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=${HARNESS_TOOLCHAIN:-1.91.1}
export CARGO_TARGET_DIR=$here/harness/target CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG PROPTEST_RNG_SEED
export HOME=/root
cd "$here/harness" || exit 3
# One program per canister: their entry points have the same names.
case $id in
C27) programs=run-depositor binary=sim-depositor ;;
C28) programs=run-fake-cmc binary=sim-fake-cmc ;;
C30) programs=run-lib binary=sim-lib ;;
--build-only) programs="run run-depositor run-fake-cmc run-lib" ;;
*) programs=run binary=sim ;;
esac
: > "$here/build.log"
for p in $programs; do
    cargo build --offline --locked --quiet -p "$p" >> "$here/build.log" 2>&1 && continue
    # Perhaps a version in /repo's Cargo.toml changed: the lock file may follow it.
    if ! cargo build --offline --quiet -p "$p" >> "$here/build.log" 2>&1; then
        tail -n 60 "$here/build.log"
        echo "the harness does not build against /repo"
        exit 3
    fi
done
if [ "$id" = --build-only ]; then exit 0; fi
exec "$CARGO_TARGET_DIR/debug/$binary" "$id" --root "$here" "$@" 2> "$here/check.log"
