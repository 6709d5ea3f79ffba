#!/bin/bash
# build.sh [lamsim|lamsnap|all]: builds the simulator from /repo's current working tree into /verif/target.
# lamsnap is the same simulator with the loader of validator snapshots (C27).
set -u
cd "$(dirname "$0")" || exit 2
root="$PWD"
what="${1:-all}"
if [ "$what" = all ]; then
    "$root/build.sh" lamsim || exit 2
    exec "$root/build.sh" lamsnap
fi
export RUSTUP_TOOLCHAIN=1.76.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$root/target" RUSTC_WRAPPER="$root/harness/rustc_wrap.sh" CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
mkdir -p target/bin
exec 9>target/.build.lock
flock 9
dirs="/repo/account_storage /repo/accounts_on_demand /repo/common /repo/token_account_storage harness/src"
packages="-p lite-account-manager-common -p lite-account-storage -p lite-accounts-on-demand -p lite-token-account-storage -p lamsim"
args="--bin lamsim"
if [ "$what" = lamsnap ]; then
    dirs="$dirs /repo/simulate_from_snapshot harness/stubs harness/snaplib"
    packages="$packages -p lite-account-snapshot-under-test"
    args="--features snap --bin lamsnap"
fi
stamp=$( (find $dirs -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 | sort -z | xargs -0 sha256sum; sha256sum /repo/Cargo.toml harness/rustc_wrap.sh harness/Cargo.toml harness/Cargo.lock build.sh) | sha256sum | cut -d' ' -f1)
if [ -x "target/bin/$what" ] && [ "$(cat "target/bin/$what.stamp" 2>/dev/null)" = "$stamp" ]; then exit 0; fi
rm -f "$root/target/bin/$what.stamp"
cd harness || exit 2
log="$CARGO_TARGET_DIR/build-$what.log"
# file times of copies say nothing: always compile the code under test and the simulator anew
cargo clean --offline $packages > "$log" 2>&1
if ! cargo build --offline $args >> "$log" 2>&1; then
    echo "build of $what failed" >&2
    grep -E -A6 '^error' "$log" | head -60 >&2
    exit 2
fi
cp "$CARGO_TARGET_DIR/debug/$what" "$CARGO_TARGET_DIR/bin/$what.new" && mv "$CARGO_TARGET_DIR/bin/$what.new" "$CARGO_TARGET_DIR/bin/$what" || exit 2
echo "$stamp" > "$CARGO_TARGET_DIR/bin/$what.stamp"
